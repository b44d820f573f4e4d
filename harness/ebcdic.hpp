// Character codes, derived from their published rules and not from the simulator's tables.
#pragma once
#include <stdint.h>
#include <ctype.h>
#include <string.h>
// EBCDIC card code (System/360 Reference Data, GX20-1703): rows 12 11 0 1..9 are bits 0x800 .. 0x001.
static inline uint16_t row(int d) { return 0x200 >> d; } // digit rows 0..9
static inline uint16_t golden_punch(int e) {
    const uint16_t T = 0x800, E = 0x400, Z = 0x200; int h = e >> 4, l = e & 15; uint16_t r9 = row(9), r8 = row(8), r1 = row(1);
    static const uint16_t z1[4] = { T, E, Z, 0 }, z2[4] = { T | Z, T | E, E | Z, T | E | Z };
    if (e == 0x61) return Z | r1; if (e == 0x6a) return T | E; if (e == 0xe0) return Z | r8 | row(2); if (e == 0xe1) return E | Z | r9 | r1;
    if (h < 4) { if (l == 0) return z2[h] | r9 | r8 | r1; if (l < 8) return z1[h] | r9 | row(l); if (l == 8) return z1[h] | r9 | r8; return z1[h] | r9 | r8 | row(l - 8); }
    if (h < 8) { int q = h - 4; if (l == 0) return q == 0 ? 0 : q == 1 ? T : q == 2 ? E : T | E | Z; if (l < 9) return z2[q] | r9 | row(l); return z1[q] | r8 | row(l - 8); }
    if (h < 12) { int q = h - 8; if (l == 0) return z2[q] | r8 | r1; if (l < 10) return z2[q] | row(l); return z2[q] | r8 | row(l - 8); }
    int q = h - 12; if (l == 0) return q == 0 ? T | Z : q == 1 ? E | Z : Z; if (l < 10) return z1[q] | row(l); return z2[q] | r9 | r8 | row(l - 8);
}
// EBCDIC graphics
static inline int golden_ascii_to_ebcdic(int a) {
    if (a >= 'A' && a <= 'I') return 0xc1 + a - 'A'; if (a >= 'J' && a <= 'R') return 0xd1 + a - 'J'; if (a >= 'S' && a <= 'Z') return 0xe2 + a - 'S';
    if (a >= 'a' && a <= 'i') return 0x81 + a - 'a'; if (a >= 'j' && a <= 'r') return 0x91 + a - 'j'; if (a >= 's' && a <= 'z') return 0xa2 + a - 's'; if (a >= '0' && a <= '9') return 0xf0 + a - '0';
    static const char g[] = " .<(+|&!$*);-/,%_>?:#@'=\"`~{}\\^"; static const uint8_t e[] = { 0x40, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f, 0x50, 0x5a, 0x5b, 0x5c, 0x5d, 0x5e, 0x60, 0x61, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f, 0x7a, 0x7b, 0x7c, 0x7d, 0x7e, 0x7f, 0x79, 0xa1, 0xc0, 0xd0, 0xe0, 0x5f };
    const char *p = a ? strchr(g, a) : 0; return p ? e[p - g] : -1;
}
static inline int golden_ebcdic_to_ascii(int e) { for (int a = 32; a < 127; a++) if (golden_ascii_to_ebcdic(a) == e) return a; return -1; }
// 029 keypunch codes of ASCII characters (the text format of decks); 0xffff: no code
static inline uint16_t golden_029(int a) {
    if (a < 32 || a > 126) return 0xffff;
    switch (a) { // where the deck format differs from the EBCDIC code of the same graphic
    case '[': return 0xE82; case ']': return 0xE42; case '^': return 0x406; case '`': return 0x102; case '{': return 0x406; case '|': return 0x806; case '}': return 0x805; case '~': return 0xF02; case '_': return 0x212; }
    return golden_punch(golden_ascii_to_ebcdic(a));
}
// BCD interchange code to EBCDIC, as the 7 track tape translator of the 2400 does it
static inline int golden_bcd_to_ebcdic(int b) { static const uint8_t zone[4] = { 0xf0, 0xe0, 0xd0, 0xc0 }; int z = b >> 4, d = b & 15;
    if (b == 0) return 0x40; if (d == 0) return z == 1 ? 0x7a : z == 2 ? 0x60 : 0x50; if (b == 0x11) return 0x61;
    if (d == 10) return zone[z]; if (d < 10) return zone[z] + d; static const uint8_t lo[4] = { 0x70, 0x60, 0x50, 0x40 }; return lo[z] + d; }
