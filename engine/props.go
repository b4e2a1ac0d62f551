package main

// Per-property time limits (seconds of exploration) and stated bounds.  The
// quick limits are a cap for slow machines; on 8 cores every quick check
// completes its bounded space well before the cap.
var propCfgs = map[string]propCfg{}

const (
	defQuick    = 420
	defThorough = 780
)

var propBounds = map[string]any{
	"C01": "one to three items of raw input (every kind of sequence with symbolic bytes and parameters, fragments, invalid UTF-8) in one or two reads on screens of 1x1 to 4x3, both buffers and text modes, a resize before or between; SGR sequences of up to 10 parameters with extended colours cut anywhere; every read accessor with every in-range argument afterwards",
	"C02": "one to three items of raw input on filled screens of 1x1 to 4x3, both buffers and text modes; runs inspected of both screens after every item and after a resize; rows of 260 columns and screens of 260 rows at positions and with counts of one to three digits around 10, 100, 128, 200 and 256",
	"C03": "screens of 1-7 columns x 2-3 rows, both buffers, both text modes; every cursor position, scroll region and wrap setting of the 4x3 screen; runs of 1-3 characters of 9 classes (ASCII, 2-, 3-, 4-byte, 3- and 4-cell wide, combining, ZWJ, flag), each character symbolic within its class; one to four bytes of which some are invalid UTF-8, between characters; runs of 20, 100 and 300 characters on rows of 3, 7 and 260; rows of 260 columns and screens of 260 rows at positions and with counts of one to three digits around 10, 100, 128, 200 and 256",
	"C04": "screens up to 5x4 (19x2 for tabs and large counts), both buffers; every cursor position and scroll region; one to two (thorough: three) motion controls with parameters of 0-4 symbolic digits; rows of 260 columns and screens of 260 rows at positions and with counts of one to three digits around 10, 100, 128, 200 and 256",
	"C05": "screens up to 6x3, both buffers and text modes, filled with narrow, wide and multi-rune characters; every cursor position; ED, EL, ECH, DCH with parameters of 0-4 symbolic digits; one or two controls; rows of 260 columns and screens of 260 rows at positions and with counts of one to three digits around 10, 100, 128, 200 and 256",
	"C06": "screens of up to 5 rows, both buffers; every scroll region and cursor row; SU, SD, IL, DL with counts of 1-4 symbolic digits or 20 digits, DECSTBM with symbolic margins, implicit scrolls of LF, FF, IND, RI and autowrap; rows of 260 columns and screens of 260 rows at positions and with counts of one to three digits around 10, 100, 128, 200 and 256",
	"C07": "SGR sequences of one to three parameters of 1-3 symbolic digits and symbolic colour components, 1 to 16 parameters per sequence; cells written and blanked afterwards on both buffers over every kind of former content",
	"C08": "streams of one to three items (symbolic bytes, every kind of sequence) cut at every point outside a grapheme cluster, and into single bytes; rune mode at every byte; both buffers, screens up to 4x2",
	"C09": "ESC with 0-3 symbolic intermediates and any final; CSI with every private marker, any final, up to 3 arbitrary parameter bytes, 1-3 symbolic intermediates, 0-20 parameters, every mode number up to 3071; OSC and DCS with payloads of up to 3 symbolic characters of 1-4 bytes and each terminator; two sequences with text around them; 4x3 screens, both buffers; state compared with that of the stream without the sequence",
	"C10": "one item of raw input in every cursor position of a filled 4x3 screen, runs of 2-3 characters, three operations, buffer switches, private modes by symbolic number, resizes; both buffers and text modes; rows of 260 columns and screens of 260 rows at positions and with counts of one to three digits around 10, 100, 128, 200 and 256",
	"C11": "rows of up to 4 cells written with symbolic SGR parameters and characters; TTYFrontend attached to every region of a 4x3 screen, two to three operations; both buffers and text modes",
	"C12": "every key code of the API with every one of the 256 modifier sets, every event type, all 32 Kitty flag sets, modifyOtherKeys 0-2, application cursor and keypad modes; runes symbolic in 5 classes (ASCII, Latin, Cyrillic, Han, emoji: up to 256 each) with and without shifted and base-layout alternates and text of up to 5 characters",
	"C13": "every button, event flag set, modifier set, tracking mode and encoding; symbolic coordinates -99 to 2047 and multiples up to 64859 (UTF-8 encoding: 1-2015 exactly, beyond: one report or none); three mode settings in a row; writes that accept 0-4 bytes and fail at any of the first 5 calls",
	"C14": "one to three queries and other items of raw input in one stream, cursor anywhere on the screen, keyboard flags and active screen varied; symbolic parameters of 0-4 digits; rows of 260 columns and screens of 260 rows at positions and with counts of one to three digits around 10, 100, 128, 200 and 256",
	"C15": "the read loop on 12 streams (and any control sequence of 8 kinds) next to one or two goroutines performing every documented operation in every rotation, both buffers: all memory accesses, lock and channel events of each run encoded as an SMT ordering problem that asks for any schedule with two conflicting accesses unordered, or a circular wait; lock probed in every callback and at every backend read for any item of raw input in reads of 1, 2, 99 bytes; a reader taking the lock at every release of it, and Resize or SetFrontend from another goroutine at every read and every release, compared with whole-step orders",
	"C16": "twelve bytes (symbolic text, a sequence with a symbolic parameter) returned in every way in reads of 0-3 bytes with an error at every offset, alone or with data, over four kinds of backend; a longer stream cut in three; inputs of 4080-8200 bytes around the buffer sizes, characters of up to 8201 bytes, up to 40 empty reads; writes of 0-7 symbolic bytes with 0-3 accepted per call and an error at any of 5; three reads through a tee; sizes 1-4000 symbolic",
	"C17": "two to four operations on either screen of a 3x3 terminal, both buffers; every private mode number of up to 4 digits, set and reset twice",
	"C18": "every size 1x1-5x3 to every size 1x1-6x4, filled with narrow, wide and multi-rune characters; every scroll region and saved cursor on 4x3; one operation between and after one or two resizes; both buffers, both screens; rows of 260 columns and screens of 260 rows at positions and with counts of one to three digits around 10, 100, 128, 200 and 256",
	"C19": "up to four (thorough: five) flag operations with symbolic flags (0-31) on both screens, the whole stack popped and compared afterwards; 30-35 pushes of symbolic flags; pop counts of 1-4 digits; the query with every flag set",
	"C20": "one item of raw input in every cursor position of a filled 4x3 screen, three operations, runs of 2-3 characters, three fragments, resizes; span and grid buffer side by side, both text modes; rows of 260 columns and screens of 260 rows at positions and with counts of one to three digits around 10, 100, 128, 200 and 256",
}
