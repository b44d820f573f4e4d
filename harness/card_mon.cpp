// Card decks and character codes.
//   mode xlat: every entry of the translation tables against independently derived codes.
//   mode deck: random histories of deck operations against a list of card images; decks written by an
//              independent encoder of the documented formats, punched files read by an independent decoder.
#include "vh.hpp"
#include "ebcdic.hpp"
extern "C" {
#include "card.h"
#include "xlat.h"
#include "logger.h"
#include "device.h"
uint64_t step_count;
struct card_context *init_card_context(); int read_card(struct card_context *, uint16_t (*)[80]); int read_deck(struct card_context *, char *);
void empty_cards(struct card_context *); void blank_deck(struct card_context *, int); int stack_card(struct card_context *, uint16_t (*)[80]);
int save_deck(struct card_context *, char *); int close_deck(struct card_context *);
}
using namespace vh;
typedef std::vector<uint16_t> Card;
static uint16_t hol029[128]; static int asc[4096], ebc[4096];
static void tables() {
    for (int i = 0; i < 4096; i++) asc[i] = ebc[i] = -1;
    for (int c = 0; c < 128; c++) { hol029[c] = golden_029(c); if (hol029[c] != 0xffff) asc[hol029[c]] = c; }
    for (int e = 0; e < 256; e++) ebc[golden_punch(e)] = e;
}
static void xlat(uint64_t, Rng &) {
    struct card_context *c = init_card_context(); (void)c;
    for (int e = 0; e < 256; e++) {
        if (ebcdic_to_hol(e) != golden_punch(e)) violation("xlat:ebcdic-to-card", fmt("EBCDIC %02x punches %03x, wanted %03x", e, ebcdic_to_hol(e), golden_punch(e)));
        if (hol_to_ebcdic(golden_punch(e)) != e) violation("xlat:card-to-ebcdic", fmt("card code %03x reads as %x, wanted %02x", golden_punch(e), hol_to_ebcdic(golden_punch(e)), e));
        int p = 1; for (int b = 0; b < 8; b++) p ^= (e >> b) & 1; if (odd_parity[e] != (p ? 0x100 : 0)) violation("xlat:odd-parity", fmt("%02x", e));
        int a = golden_ebcdic_to_ascii(e); if (a >= 0 && ebcdic_to_ascii[e] != a) violation("xlat:ebcdic-to-ascii", fmt("EBCDIC %02x is %02x, wanted %02x", e, ebcdic_to_ascii[e], a));
        tally("codes_compared", 4); seen("codes", (uint64_t)e);
    }
    for (int h = 0; h < 4096; h++) { if (ebc[h] < 0 && hol_to_ebcdic(h) != 0x100) violation("xlat:card-to-ebcdic", fmt("card code %03x is no character but reads as %x", h, hol_to_ebcdic(h)));
        if (asc[h] < 0 ? hol_to_ascii(h) != 0xff : hol029[hol_to_ascii(h) & 0x7f] != h) violation("xlat:card-to-ascii", fmt("card code %03x reads as %02x", h, hol_to_ascii(h))); tally("codes_compared", 2); seen("holes", (uint64_t)h); }
    for (int a = 32; a < 127; a++) { int e = golden_ascii_to_ebcdic(a); if (e >= 0 && ascii_to_ebcdic[a] != e) violation("xlat:ascii-to-ebcdic", fmt("ASCII %02x is %02x, wanted %02x", a, ascii_to_ebcdic[a], e));
        if (e >= 0 && (isalnum(a) || strchr(" !\"#$%&'()*+,-./:;<=>?@_", a)) && ascii_to_hol(a) != golden_punch(e)) violation("xlat:ascii-to-card", fmt("ASCII %02x punches %03x", a, ascii_to_hol(a))); tally("codes_compared", 2); }
    for (int a = 0; a < 256; a++) { uint16_t h = ascii_to_hol(a); if (a >= 128 && (h & 0xf000) == 0) violation("xlat:ascii-to-card", fmt("byte %02x is no ASCII character but punches %03x", a, h)); }
    for (int b = 0; b < 64; b++) { int p = 0; for (int k = 0; k < 6; k++) p ^= (b >> k) & 1; if (parity_table[b] != (p ? 0100 : 0)) violation("xlat:bcd-parity", fmt("%02o", b)); 
        if (bcd_to_ebcdic[b] != golden_bcd_to_ebcdic(b)) violation("xlat:bcd-to-ebcdic", fmt("BCD %02o is %02x, wanted %02x", b, bcd_to_ebcdic[b], golden_bcd_to_ebcdic(b))); tally("codes_compared", 2); }
}
// ---- decks ----
static std::string pchars; // printable characters with a card code
static Card rndcard(Rng &r, int kind) { // kind 0 text, 1 binary, 2 EBCDIC-punchable
    Card c(80, 0); int n = r.one_in(4) ? 80 : r.one_in(6) ? 0 : r.range(1, 80);
    for (int i = 0; i < n; i++) if (kind == 0) c[i] = hol029[(unsigned char)pchars[r.below(pchars.size())]]; else if (kind == 1) c[i] = r.below(4096); else c[i] = golden_punch(r.below(256));
    if (kind == 1 && r.one_in(4)) { Card z(80, 0); z[0] = r.one_in(2) ? (uint16_t)r.below(4096) : r.pick<uint16_t>({ 07, 015, 017, 0xfff, 1 }); return z; }
    if (kind == 0 && r.chance(30)) { int p = r.below(80), l = r.below(80 - p); for (int i = 0; i < l; i++) c[p + i] = 0; }
    return c;
}
static std::string text(const Card &c, Rng *r) { // one line; the first column is not a tilde
    int n = 80; while (n > 0 && c[n - 1] == 0) n--; std::string s; if (r && r->one_in(3)) n = r->range(n, 80);
    for (int i = 0; i < n;) {
        if (r && r->one_in(3) && c[i] == 0) { int t = (i | 7) + 1; bool ok = t <= 80; for (int k = i; ok && k < t; k++) ok = c[k] == 0; if (ok) { s += '\t'; i = t; continue; } }
        if (r && r->one_in(60)) s += '\0';
        s += c[i] == 0xffe ? (char)(r->one_in(2) ? r->range(1, 8) : 0x80 + r->below(128)) : (char)asc[c[i]]; i++;
    }
    return s;
}
static std::string raw(const Card &c, Rng *r) {
    int n = 80; if (r && r->one_in(2)) while (n > 0 && c[n - 1] == 0) n--; std::string s = r && r->one_in(3) ? "~RAW" : "~raw";
    for (int i = 0; i < n; i++) s += fmt("%04o", c[i]); return s;
}
static std::string bin(const Card &c) { std::string s; for (int i = 0; i < 80; i++) { s += (char)((c[i] & 0xf) << 4); s += (char)(c[i] >> 4); } return s; }
static std::string ebcd(const Card &c) { std::string s; for (int i = 0; i < 80; i++) s += (char)(ebc[c[i]] < 0 ? 0 : ebc[c[i]]); return s; }
// decoder of punched files
static bool dec_line(const std::string &l, Card &c, std::string &why) {
    c.assign(80, 0);
    if (l.compare(0, 4, "~raw") == 0) { for (size_t i = 4, k = 0; i < l.size(); i += 4, k++) { if (k >= 80 || i + 4 > l.size()) { why = "raw card length"; return false; } int v = 0; for (int j = 0; j < 4; j++) { if (l[i + j] < '0' || l[i + j] > '7') { why = "raw digit"; return false; } v = v * 8 + l[i + j] - '0'; } c[k] = v; } return true; }
    if (l == "~eor") { c[0] = 07; return true; } if (l == "~eof") { c[0] = 015; return true; } if (l == "~eoi") { c[0] = 017; return true; }
    if (l.size() > 80) { why = "line longer than a card"; return false; }
    for (size_t i = 0; i < l.size(); i++) { int h = (unsigned char)l[i] < 128 ? hol029[(unsigned char)l[i]] : 0xffff; if (h == 0xffff) { why = "character without a code"; return false; } c[i] = h; }
    return true;
}
static std::string show(const Card &c) { std::string s; for (int i = 0; i < 80; i++) s += fmt("%03x ", c[i]); return s; }
static void deck(uint64_t ci, Rng &r) {
    struct card_context *cc = init_card_context(); std::vector<Card> cards; size_t pos = 0; std::string hist; uint64_t sig = 0; bool open = false; std::string file, want; std::vector<std::pair<int, Card>> punched; std::string openname;
    auto img = [&](const Card &c, uint16_t (*o)[80]) { for (int i = 0; i < 80; i++) (*o)[i] = c[i]; };
    auto slurp = [&](const std::string &n) { std::string s; FILE *f = fopen(n.c_str(), "rb"); if (!f) return s; char b[8192]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s; };
    auto drain = [&] { while (pos < cards.size()) { punched.push_back({ cc->mode, cards[pos] }); pos++; } };
    auto verify = [&] { // the closed or flushed file holds exactly the punched cards
        std::string s = slurp(openname); size_t p = 0; size_t n = 0; tally("punched_cards", punched.size());
        for (auto &e : punched) { Card got; std::string why; Card w = e.second; int m = e.first; bool text_able = true; for (int i = 0; i < 80; i++) if (asc[w[i]] < 0) text_able = false;
            if (m == MODE_BIN) { if (s.compare(p, 160, bin(w)) != 0) { violation("deck:punch-binary", fmt("card %zu of the file is not the image ", n) + show(w)); return; } p += 160; }
            else if (m == MODE_EBCDIC) { if (s.compare(p, 80, ebcd(w)) != 0) { violation("deck:punch-ebcdic", fmt("card %zu of the file is not the record of ", n) + show(w)); return; } p += 80; }
            else { size_t e2 = s.find('\n', p); if (e2 == std::string::npos) { violation("deck:punch-lines", fmt("card %zu of %zu is missing", n, punched.size())); return; }
                std::string l = s.substr(p, e2 - p); p = e2 + 1;
                if (m == MODE_TEXT) { for (int i = 0; i < 80; i++) if (asc[w[i]] < 0) w[i] = hol029['?']; }
                // text which looks like a control card cannot be told from one
                if ((m == MODE_TEXT || (m == MODE_AUTO && text_able)) && l.size() && l[0] == '~') { std::string t; for (int i = 0; i < 80; i++) t += (char)asc[w[i]]; if (t.compare(0, l.size(), l) != 0) violation("deck:punch-text", "'" + l + "' for '" + t + "'"); n++; continue; }
                if (!dec_line(l, got, why) || got != w) { violation(m == MODE_OCTAL || !text_able ? "deck:punch-octal" : "deck:punch-text", fmt("card %zu punched as '%s' %s: wanted ", n, l.c_str(), why.c_str()) + show(w)); return; }
                if (m == MODE_OCTAL && l.size() && l[0] != '~') { violation("deck:punch-octal", "octal card punched as text"); return; } }
            n++; }
        if (p != s.size()) violation("deck:punch-extra", fmt("%zu bytes after the last punched card", s.size() - p));
    };
    int nops = r.range(3, 30); int nf = 0;
    for (int k = 0; k < nops; k++) {
        int op = r.below(12); sig = sig * 31 + op;
        if (op < 3) { // load a deck
            if (open) continue; // the stacker's file stays with it
            int m = r.below(5); cc->mode = m; std::string s; std::vector<Card> nw; int n = r.one_in(6) ? 0 : r.one_in(15) ? r.range(900, 2100) : r.range(1, 12);
            std::vector<size_t> starts; bool autobin = m == MODE_AUTO && r.one_in(3);
            for (int i = 0; i < n; i++) {
                starts.push_back(s.size());
                if (m == MODE_BIN || autobin) { Card c = rndcard(r, r.below(3)); nw.push_back(c); s += bin(c); }
                else if (m == MODE_EBCDIC) { Card c = rndcard(r, 2); nw.push_back(c); s += ebcd(c); }
                else { int t = r.below(10); std::string nl = r.one_in(6) ? "\r\n" : "\n"; bool last = i == n - 1 && r.one_in(4);
                    if (t < 6) { Card c = rndcard(r, 0); if (c[0] == hol029['~']) c[0] = 0; bool bad = false; if (r.one_in(8)) { c[r.below(80)] = 0xffe; bad = true; }
                        std::string l = text(c, &r); if (c[79] != 0 && r.one_in(2)) { std::string x = std::string(r.below(200), 'x'); l += x; } if (l.empty()) l = " ";
                        for (auto &h : c) if (h == 0xffe) h = 0xfff; nw.push_back(c); s += l; (void)bad; }
                    else if (t < 8) { Card c = rndcard(r, r.below(3)); nw.push_back(c); s += raw(c, &r); }
                    else if (t == 8) { int q = r.below(3); Card c(80, 0); c[0] = q == 0 ? 07 : q == 1 ? 015 : 017; nw.push_back(c); s += q == 0 ? "~eor" : q == 1 ? "~eof" : "~eoi"; if (r.one_in(3)) s += "  any"; }
                    else { nw.push_back(Card(80, 0)); s += "~"; if (r.one_in(3)) s += "  "; tally("eof_cards"); }
                    if (!last) s += nl; tally(t < 6 ? "text_cards" : t < 8 ? "raw_cards" : "special_cards"); }
            }
            if (m == MODE_AUTO && !autobin) { // text that could be taken for a binary card is not determinate
                bool amb = false; for (size_t a : starts) { unsigned v = 0; if (s.size() - a < 158) continue; for (size_t i = 0; i < 160 && a + i < s.size(); i += 2) v |= (unsigned char)s[a + i]; if ((v & 15) == 0) amb = true; } if (amb) { tally("ambiguous_skipped"); continue; } }
            std::string fn = C().scratch + fmt("/d%d.deck", nf++ % 3); FILE *f = fopen(fn.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f);
            hist += fmt(" load%d(mode %d)", n, m); note("read_deck"); int rc = read_deck(cc, (char *)fn.c_str()); note("");
            if (rc != 1) { violation("deck:load-refused", fmt("read_deck returned %d", rc)); break; }
            cards.erase(cards.begin(), cards.begin() + pos); pos = 0; cards.insert(cards.end(), nw.begin(), nw.end()); tally("loaded_cards", n);
        } else if (op < 7) { int n = r.one_in(8) ? 3000 : r.range(1, 10); for (int i = 0; i < n; i++) { uint16_t im[80]; memset(im, 0x77, sizeof im); int rc = read_card(cc, &im); if (rc != (pos < cards.size())) { violation("deck:read-result", fmt("read_card returned %d with %zu cards left in%s", rc, cards.size() - pos, hist.c_str())); goto out; } if (!rc) break;
                Card g(im, im + 80); if (g != cards[pos]) { violation("deck:read-image", fmt("card %zu: got %s wanted %s in", pos, show(g).c_str(), show(cards[pos]).c_str()) + hist); goto out; } pos++; tally("cards_read"); } hist += " read";
        } else if (op == 7) { int n = r.one_in(10) ? 1500 : r.below(6); if (open) continue; note("blank_deck"); blank_deck(cc, n); note(""); cards.erase(cards.begin(), cards.begin() + pos); pos = 0; for (int i = 0; i < n; i++) cards.push_back(Card(80, 0)); hist += fmt(" blank%d", n);
        } else if (op == 8 || op == 9) { int n = r.one_in(12) ? 1200 : r.range(1, 6); if (n > 100 && cc->file) n = 5; for (int i = 0; i < n; i++) { Card c = rndcard(r, r.below(3)); uint16_t im[80]; img(c, &im); if (cc->file && r.one_in(3)) cc->mode = r.below(5); stack_card(cc, &im); cards.push_back(c); if (open) drain(); tally("stacked_cards"); } hist += fmt(" stack%d", n);
        } else if (op == 10) { if (open) { close_deck(cc); verify(); open = false; punched.clear(); } std::string fn = C().scratch + fmt("/p%d.deck", nf++ % 2); cc->mode = r.below(5); note("save_deck"); if (save_deck(cc, (char *)fn.c_str()) != 0) violation("deck:save", "save_deck failed"); note(""); open = true; openname = fn; drain(); verify(); hist += " save"; tally("saves");
        } else { note("empty_cards"); empty_cards(cc); note(""); if (open) drain(); cards.clear(); pos = 0; hist += " empty"; if (open && r.one_in(2)) { close_deck(cc); verify(); open = false; punched.clear(); hist += " close"; } }
        if (hopper_size(cc) != (int)(cards.size() - pos)) { violation("deck:hopper-size", fmt("hopper_size %d, %zu cards are in it after", hopper_size(cc), cards.size() - pos) + hist); break; }
        if (stack_size(cc) != (int)cards.size()) { violation("deck:stack-size", fmt("stack_size %d, %zu cards after", stack_size(cc), cards.size()) + hist); break; }
        sig = sig * 31 + cards.size() * 7 + pos;
    }
    if (open) { close_deck(cc); verify(); }
out:
    close_deck(cc); free(cc->images); free(cc);
    // a deck that cannot be saved must leave the context usable
    { cc = init_card_context(); uint16_t im[80] = { 0 }; stack_card(cc, &im); std::string fn = C().scratch + "/p9.deck"; save_deck(cc, (char *)fn.c_str()); if (save_deck(cc, (char *)(C().scratch + "/no/such/dir").c_str()) == 0) violation("deck:save", "saving into a missing directory succeeded"); close_deck(cc); free(cc->images); free(cc); }
    seen("histories", sig); if (ci % 499 == 0) sample(hist);
}
int main(int argc, char **argv) {
    init(argc, argv); log_level = 0; log_enable = 0; tables(); for (int c = 32; c < 127; c++) if (hol029[c] != 0xffff && asc[hol029[c]] == c) pchars += (char)c; pchars += "          ";
    if (!C().verbose) { stderr = fopen("/dev/null", "w"); }
    if (C().mode == "xlat") cases(xlat, 20); else cases(deck, 60);
    return finish();
}
