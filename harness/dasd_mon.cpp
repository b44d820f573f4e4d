// Disk volumes (CKD images).
//   mode volume:  formatting, attaching, labels and refusals, judged by an independent decoder of the image file.
//   mode stream:  random tracks, seeks, head selection, reading, updating and formatting writes through the byte
//                 interface of the drive, against an independent model of the tracks; the file is compared at the end.
//   mode hostile: damaged images and arbitrary use: no memory error and every call returns.
#include "vh.hpp"
#include <sys/stat.h>
extern "C" {
#include "event.h"
#include "logger.h"
#include "dasd.h"
#include "xlat.h"
uint64_t step_count;
}
using namespace vh;
typedef std::string Img;
struct Geo { const char *name; int cyl, heads, bpt; int code, g1, g2, g4, sync; bool b14; };
static const Geo G[4] = { { "2311", 203, 10, 3717, 0x11, 36, 36, 36, 6, false }, { "2314", 202, 20, 7294, 0x14, 36, 18, 73, 5, true }, { "2303", 80, 10, 4984, 0x03, 72, 36, 36, 6, false }, { "2302", 250, 46, 4984, 0x02, 72, 36, 36, 6, false } };
static int tracksize(const Geo &g) { return (g.bpt | 0x1ff) + 1; }
struct Rec { uint8_t c[8]; std::string key, data; };
struct Track { uint8_t ha[5]; std::vector<Rec> r; };
static int field(const Geo &g, int n) { return n + (g.b14 ? 4 : 2); }
static int used(const Geo &g, const Track &t) { int n = g.g4 + 8 + field(g, 5) + g.g1 + 8; for (auto &r : t.r) { n += field(g, 9) + 3 * (g.g2 + 6) + field(g, r.data.size()); if (r.key.size()) n += field(g, r.key.size()); } return n; }
static std::string pack(const Geo &g, const Track &t) {
    std::string s((const char *)t.ha, 5); for (auto &r : t.r) { s.append((const char *)r.c, 8); s += r.key; s += r.data; } s.append(4, (char)0xff); s.resize(tracksize(g), 0); return s;
}
static bool decode(const std::string &s, Track &t) {   // an independent reader of the track format
    t.r.clear(); if (s.size() < 9) return false; memcpy(t.ha, s.data(), 5); size_t p = 5;
    for (;;) {
        if (p + 4 > s.size()) return false; if (s.compare(p, 4, "\xff\xff\xff\xff", 4) == 0) return true; if (p + 8 > s.size()) return false;
        Rec r; memcpy(r.c, s.data() + p, 8); size_t k = r.c[5], d = r.c[6] << 8 | r.c[7]; p += 8; if (p + k + d > s.size()) return false; r.key = s.substr(p, k); r.data = s.substr(p + k, d); p += k + d; t.r.push_back(r);
    }
}
static std::string hex(const std::string &s, size_t n = 24) { std::string r; for (size_t i = 0; i < s.size() && i < n; i++) r += fmt("%02x", (uint8_t)s[i]); return r; }
static std::string slurp(const std::string &n) { std::string s; FILE *f = fopen(n.c_str(), "rb"); if (!f) return s; fseek(f, 0, SEEK_END); s.resize(ftell(f)); rewind(f); if (fread(&s[0], 1, s.size(), f) != s.size()) s.clear(); fclose(f); return s; }
static std::string slice(const std::string &n, size_t at, size_t len) { std::string s(len, 0); int fd = open(n.c_str(), O_RDONLY); if (fd < 0) return ""; ssize_t k = pread(fd, &s[0], len, at); close(fd); s.resize(k < 0 ? 0 : k); return s; }
static void spill(const std::string &n, const std::string &s) { FILE *f = fopen(n.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static std::string header(const Geo &g) { std::string h = "CKD_P370"; auto le = [&](uint32_t v, int n) { while (n--) { h += (char)v; v >>= 8; } }; le(g.heads, 4); le(tracksize(g), 4); h += (char)g.code; h += '\0'; le(g.cyl, 2); h.resize(512, 0); return h; }
static uint8_t ebc(char c) { if (c >= '0' && c <= '9') return 0xf0 + c - '0'; if (c >= 'A' && c <= 'I') return 0xc1 + c - 'A'; if (c >= 'J' && c <= 'R') return 0xd1 + c - 'J'; if (c >= 'S' && c <= 'Z') return 0xe2 + c - 'S'; return 0x40; }
static struct _dasd_t *mk(const Geo &g) { struct _dasd_t *d = (struct _dasd_t *)calloc(1, sizeof *d); d->fd = -1; dasd_settype(d, (char *)g.name); return d; }
static bool online(struct _dasd_t *d) { return (dasd_gettags(d) & 0x40) != 0; }
static Rec rec(int cyl, int hd, int n, const std::string &key, const std::string &data) { Rec r; r.c[0] = cyl >> 8; r.c[1] = cyl; r.c[2] = hd >> 8; r.c[3] = hd; r.c[4] = n; r.c[5] = key.size(); r.c[6] = data.size() >> 8; r.c[7] = data.size(); r.key = key; r.data = data; return r; }
static std::string cstr(const Rec &r) { return std::string((const char *)r.c, 8); }

// ---------------------------------------------------------------------------------------------- volumes
static void volume(uint64_t ci, Rng &r) {
    const Geo &g = G[r.one_in(9) ? 3 : r.one_in(3) ? 2 : r.one_in(3) ? 1 : 0]; std::string fn = C().scratch + "/v.ckd"; unlink(fn.c_str());
    auto bad = [&](const char *k, const std::string &d) { violation(fmt("dasd:%s:%s", k, g.name), d); };
    int what = r.below(10); struct _dasd_t *d = mk(g); seen("histories", fmt("v%s%d", g.name, what));
    if (what < 5) {     // new volume
        std::string vol; bool lab = !r.one_in(4); if (lab) { int n = r.range(1, 6); for (int i = 0; i < n; i++) vol += r.one_in(3) ? (char)('0' + r.below(10)) : (char)('A' + r.below(26)); dasd_setvolid(d, (char *)vol.c_str()); } else vol = "111111";
        if (r.one_in(2)) { std::string old(r.range(0, 3000), 0); for (auto &c : old) c = (char)r.u32(); spill(fn, old); }
        note("format"); int rc = dasd_attach(d, (char *)fn.c_str(), 1); note("");
        if (rc != 1) { bad("format", fmt("attach with initialisation gave %d", rc)); free(d); return; }
        if (!online(d)) bad("online", "drive not online after an attach"); if (dasd_cur_cyl(d) != 0) bad("online", "not at cylinder 0");
        if (r.one_in(2)) { dasd_detach(d); if (online(d)) bad("offline", "drive online after a detach"); } else { free(d->cbuf); close(d->fd); free(d->file_name); memset(d, 0, sizeof *d); d->fd = -1; dasd_settype(d, (char *)g.name); tally("power_lost"); }
        std::string f = slurp(fn), h = header(g); size_t ts = tracksize(g), want = 512 + ts * g.heads * g.cyl;
        if (f.size() != want) { bad("size", fmt("image of %zu bytes, wanted %zu", f.size(), want)); free(d); return; }
        if (f.compare(0, 512, h)) bad("header", "header " + hex(f) + " wanted " + hex(h));
        int nb = 0; for (int c = 0; c < g.cyl && nb < 3; c++) for (int hd = 0; hd < g.heads && nb < 3; hd++) {
            Track t; std::string s = f.substr(512 + ts * (c * g.heads + hd), ts); if (!decode(s, t)) { bad("track", fmt("cylinder %d head %d cannot be decoded", c, hd)); nb++; continue; }
            uint8_t ha[5] = { 0, (uint8_t)(c >> 8), (uint8_t)c, 0, (uint8_t)hd }; if (memcmp(t.ha, ha, 5)) { bad("home", fmt("cylinder %d head %d", c, hd)); nb++; }
            std::vector<Rec> w; w.push_back(rec(c, hd, 0, "", std::string(8, 0)));
            if (c == 0 && hd == 0) { if (t.r.size() != 4) { bad("ipl", fmt("%zu records on the first track", t.r.size())); nb++; continue; }
                const char *keys[3] = { "\xC9\xD7\xD3\xF1", "\xC9\xD7\xD3\xF2", "\xE5\xD6\xD3\xF1" }; int len[3] = { 24, 144, 80 };
                for (int i = 0; i < 4; i++) { Rec &x = t.r[i]; if (x.c[4] != i || x.c[0] || x.c[1] || x.c[2] || x.c[3]) { bad("ipl", fmt("record %d has count %s", i, hex(cstr(x)).c_str())); nb++; } if (i && (x.key != keys[i - 1] || (int)x.data.size() != len[i - 1])) { bad("ipl", fmt("record %d key %s length %zu", i, hex(x.key).c_str(), x.data.size())); nb++; } }
                std::string lb = "\xE5\xD6\xD3\xF1"; for (size_t i = 0; i < 6; i++) lb += (char)ebc(i < vol.size() ? vol[i] : ' '); if (t.r[3].data.compare(0, 10, lb)) { bad("label", "volume label " + hex(t.r[3].data, 10) + " for " + vol); nb++; } tally("labels");
                std::string wrest = pack(g, t); if (wrest != s) { bad("rest", "bytes behind the end of the first track"); nb++; }
            } else { w.push_back(rec(c, hd, 1, "", "")); Track x; memcpy(x.ha, ha, 5); x.r = w; if (pack(g, x) != s) { bad("track", fmt("cylinder %d head %d is not an empty track: %s", c, hd, hex(s, 48).c_str())); nb++; } }
            tally("tracks_decoded");
        }
        // attach it again: nothing changes, the label comes back
        struct _dasd_t *e = mk(g); rc = dasd_attach(e, (char *)fn.c_str(), 0);
        if (rc != 1) bad("reattach", fmt("attach of a formatted volume gave %d", rc));
        else { std::string vl = e->vol_label; std::string v6 = vl.substr(0, 6); while (v6.size() && v6.back() == ' ') v6.pop_back(); if (v6 != vol) bad("label-read", "label read as '" + vl + "' for '" + vol + "'"); dasd_detach(e); tally("reattached"); }
        if (slurp(fn) != f) bad("reattach-changes", "attaching and detaching changed the image"); free(e);
    } else if (what < 7) {   // a file that is no volume
        std::string old(r.pick<int>({ 0, 1, 100, 511, 512, 513, 5000, 100000 }), 0); for (auto &c : old) c = (char)r.u32(); if (r.one_in(3) && old.size() >= 8) { old.replace(0, 8, "CKD_P370"); old[r.below(8)] ^= 1 << r.below(8); } spill(fn, old);
        note("attach without init"); int rc = dasd_attach(d, (char *)fn.c_str(), 0); note(""); if (rc == 1) bad("foreign", fmt("a file of %zu bytes that is no volume was attached", old.size())); if (online(d)) bad("foreign-online", "drive online with a file that is no volume"); if (rc == 1) dasd_detach(d); if (slurp(fn) != old) bad("foreign-overwritten", fmt("a file of %zu bytes that is no volume was overwritten though no initialisation was asked for", old.size())); tally("foreign_files");
    } else if (what < 8) {   // missing
        note("attach missing"); int rc = dasd_attach(d, (char *)fn.c_str(), 0); note(""); if (rc == 1) bad("missing", "a missing file was attached"); if (online(d)) bad("missing-online", "drive online with a missing file"); if (access(fn.c_str(), F_OK) == 0) bad("missing-created", "a missing file was created though no initialisation was asked for");
        if (rc == 1) dasd_detach(d); std::string no = C().scratch + "/none/x"; rc = dasd_attach(d, (char *)no.c_str(), 1); if (rc == 1 || online(d)) bad("missing", "a file that cannot be created was attached"); tally("missing_files");
    } else {                 // volume of another type
        const Geo &o = G[r.below(3)]; std::string img = header(o); for (int h = 0; h < o.heads; h++) { Track t; uint8_t ha[5] = { 0, 0, 0, 0, (uint8_t)h }; memcpy(t.ha, ha, 5); t.r.push_back(rec(0, h, 0, "", std::string(8, 0))); img += pack(o, t); } img.resize(512 + (size_t)o.cyl * o.heads * tracksize(o), 0); if (r.one_in(4)) img[r.pick<int>({ 8, 9, 12, 13, 14, 16 })] ^= 1 << r.below(8); spill(fn, img); uint64_t hh = hash_str(img);
        note("attach other type"); int rc = dasd_attach(d, (char *)fn.c_str(), 0); if (rc == 1) { uint8_t b = 0, am = 0, ix = 0; int lim = 3 * 8000 * 14; for (int h = 0; h < 3; h++) { int ixn = 0; for (int i = 0; i < lim && ixn < 4; i++) { ix = 0; dasd_read_byte(d, &b, &am, &ix); ixn += ix; } dasd_settags(d, 0x89, 0x01); dasd_settags(d, 0x81, 0); } dasd_detach(d); tally("other_type_attached"); } else tally("other_type_refused"); note("");
        if (hash_str(slurp(fn)) != hh) bad("other-type-changed", "attaching a volume of another type changed it"); 
    }
    free(d); unlink(fn.c_str()); if (ci % 97 == 0) sample(fmt("%s kind %d", g.name, what));
}

// ---------------------------------------------------------------------------------------------- streams
enum Kind { SYNC_HA, SYNC_R0, SYNC_AM, SYNC_KD, BYTE, CK, FLAG, TRAIL };
struct El { uint8_t v; Kind k; };
static void fieldof(std::vector<El> &v, const Geo &g, const std::string &d, int odd, int nflag) {
    uint8_t ck[2] = { 0xff, 0xff }; for (size_t i = 0; i < d.size(); i++) { v.push_back({ (uint8_t)d[i], i < (size_t)nflag ? FLAG : BYTE }); ck[(i + odd) & 1] ^= (uint8_t)d[i]; } v.push_back({ ck[0], CK }); v.push_back({ ck[1], CK }); if (g.b14) { v.push_back({ 1, TRAIL }); v.push_back({ 0xff, TRAIL }); }
}
static std::vector<El> stream(const Geo &g, const Track &t) {   // what passes under the head in one revolution
    std::vector<El> v; v.push_back({ (uint8_t)g.sync, SYNC_HA }); fieldof(v, g, std::string((const char *)t.ha, 5), 1, 0);
    for (size_t i = 0; i < t.r.size(); i++) {
        const Rec &r = t.r[i]; v.push_back({ (uint8_t)(g.b14 ? (i ? 6 : 3) : g.sync), i ? SYNC_AM : SYNC_R0 }); std::string c = cstr(r); uint8_t fl = (i & 1) ? 0x80 : 0; if (i) { if (c[0] & 0x80) fl |= 0x40; c[0] &= 0x7f; } fieldof(v, g, std::string(1, (char)fl) + c, 1, 1);
        if (r.key.size()) { v.push_back({ (uint8_t)(g.b14 ? 2 : g.sync), SYNC_KD }); fieldof(v, g, r.key, r.key.size() & 1, 0); }
        v.push_back({ (uint8_t)(g.b14 ? 1 : g.sync), SYNC_KD }); fieldof(v, g, r.data, r.data.size() & 1, 0);
    }
    return v;
}
struct Drive {
    const Geo &g; struct _dasd_t *d; std::vector<uint8_t> got; std::vector<uint8_t> gam; bool index = false; long calls = 0;
    Drive(const Geo &gg, struct _dasd_t *dd) : g(gg), d(dd) {}
    bool read(uint8_t *b) { uint8_t am = 0, ix = 0, v = 0xa5; calls++; int rc = dasd_read_byte(d, &v, &am, &ix); index = ix; *b = v; if (rc) { got.push_back(v); gam.push_back(am); } return rc; }
    // run to the next index point; collects the bytes handed over
    bool revolution() { got.clear(); gam.clear(); uint8_t b; long n = 0, lim = 14L * (g.bpt + 400); int dead = 14 * 8; while (n++ < lim) { read(&b); if (index && n > dead) return true; } return false; }
    bool to_index() { uint8_t b; long n = 0, lim = 14L * (g.bpt + 400); index = false; while (n++ < lim) { read(&b); if (index) return true; } return false; }
    // reads on until n more bytes were handed over
    bool take(size_t n) { uint8_t b; size_t w = got.size() + n; long lim = 14L * (g.bpt + 400); while (got.size() < w && lim-- > 0) read(&b); return got.size() == w; }
    bool put(uint8_t v, uint8_t am = 0) { uint8_t ix = 0; for (int i = 0; i < 60; i++) { uint8_t b = v, a = am; ix = 0; if (dasd_write_byte(d, &b, &a, &ix)) return true; } return false; }
    void gap(int sync) { static const uint8_t p[] = { 0xcc, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0, 0, 0, 0xff }; for (uint8_t x : p) put(x); put(sync); }
    void amgap() { put(0xcc); for (int i = 0; i < 21; i++) put(0xff); for (int i = 0; i < 4; i++) put(0); put(0xff); put(0xff, 1); put(0xff, 1); put(0xe); }
    void wfield(const std::string &s, int odd, int nflag) { std::vector<El> v; fieldof(v, g, s, odd, nflag); for (auto &e : v) put(e.v); }
    void keydata(const Rec &r) { if (r.key.size()) { gap(g.b14 ? 0xa : 0xe); wfield(r.key, r.key.size() & 1, 0); } gap(g.b14 ? 0x9 : 0xe); wfield(r.data, r.data.size() & 1, 0); }
    void count(const Rec &r, int i) { std::string c = cstr(r); uint8_t fl = (i & 1) ? 0x80 : 0; if (c[0] & 0x80) { fl |= 0x40; c[0] &= 0x7f; } wfield(std::string(1, (char)fl) + c, 1, 1); }
    void erase() { put(0xcc); for (int i = 0; i < 100; i++) put(0xff); }
};
static std::string rnd(Rng &r, int n) { std::string s(n, 0); int k = r.below(4); uint64_t x = r.next(); for (int i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; s[i] = k == 0 ? (char)0 : k == 1 ? (char)0xff : (char)(x >> 40); } return s; }
static Rec rndrec(Rng &r, int cyl, int hd, int n, int room) {
    int kl = r.one_in(3) ? (r.one_in(5) ? r.range(1, 255) : r.range(1, 12)) : 0; int dl = r.one_in(8) ? 0 : r.one_in(6) ? r.range(1, 3) : r.one_in(5) ? room - kl : r.range(1, 300); if (kl > room) kl = 0; if (dl > room - kl) dl = room - kl; if (dl < 0) dl = 0;
    Rec x = rec(cyl, hd, n, rnd(r, kl), rnd(r, dl)); if (r.one_in(5)) for (int i = 0; i < 5; i++) x.c[i] = (uint8_t)r.u32(); if ((x.c[0] & x.c[1] & x.c[2] & x.c[3]) == 0xff) x.c[3] = 0; return x;
}
static void fill(Rng &r, const Geo &g, Track &t, int cyl, int hd, int limit) { for (int i = (int)t.r.size(); i < limit; i++) { int room = g.bpt - 60 - used(g, t) - (field(g, 9) + 3 * (g.g2 + 6) + 2 * field(g, 0)); if (room < 0) break; t.r.push_back(rndrec(r, cyl, hd, i, room)); } }
static void streams(uint64_t ci, Rng &r) {
    const Geo &g = G[r.one_in(7) ? 3 : r.one_in(5) ? 2 : r.one_in(2) ? 1 : 0]; size_t ts = tracksize(g); std::string fn = C().scratch + "/s.ckd"; unlink(fn.c_str()); std::string hist; uint64_t sig = g.code;
    auto bad = [&](const char *k, const std::string &d) { violation(fmt("dasd:%s:%s", k, g.name), d + " after" + hist.substr(hist.size() > 700 ? hist.size() - 700 : 0)); };
    std::map<int, std::vector<Track>> vol; std::vector<int> cyls; int nc = r.range(2, 4); cyls.push_back(0); for (int i = 1; i < nc; i++) cyls.push_back(r.one_in(4) ? g.cyl - 1 : r.range(1, g.cyl - 1));
    std::vector<int> heads; for (int i = 0; i < 3; i++) heads.push_back(r.one_in(3) ? g.heads - 1 : r.below(g.heads)); heads.push_back(0);
    { int fd = open(fn.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); std::string h = header(g); if (ftruncate(fd, 512 + (off_t)ts * g.heads * g.cyl) || pwrite(fd, h.data(), 512, 0) != 512) { close(fd); return; }
      for (int c : cyls) if (!vol.count(c)) { auto &v = vol[c]; std::string all; for (int h2 = 0; h2 < g.heads; h2++) { Track t; uint8_t ha[5] = { 0, (uint8_t)(c >> 8), (uint8_t)c, 0, (uint8_t)h2 }; if (r.one_in(9)) ha[0] = r.below(4); memcpy(t.ha, ha, 5); if (!r.one_in(12)) { t.r.push_back(r.one_in(6) ? rndrec(r, c, h2, 0, 200) : rec(c, h2, 0, "", rnd(r, 8))); if (std::count(heads.begin(), heads.end(), h2)) fill(r, g, t, c, h2, r.one_in(6) ? 60 : r.below(8)); } v.push_back(t); all += pack(g, t); } if (pwrite(fd, all.data(), all.size(), 512 + (off_t)ts * g.heads * c) != (ssize_t)all.size()) { close(fd); return; } }
      close(fd); }
    struct _dasd_t *d = mk(g); if (dasd_attach(d, (char *)fn.c_str(), 0) != 1) { bad("attach", "a good volume was refused"); free(d); return; }
    if (r.one_in(3)) { dasd_settags(d, 0x81, 0x10); }
    int cyl = 0, head = 0; Drive dr(g, d); bool eoc = false; int nops = r.range(3, 14); long period = 0; bool synced = false;
    auto sethead = [&](int h) { if (!g.b14) { dasd_settags(d, 0x81, 0x10); } else dasd_settags(d, 0x81, 0x10);
        int first = h < 16 ? h : 15; dasd_settags(d, 0x21, (uint8_t)first); for (int i = first; i < h; i++) { if (g.b14) { dasd_settags(d, 0x81, 0x01); dasd_settags(d, 0x81, 0x01); } else dasd_settags(d, 0x89, 0); } head = h; eoc = false; hist += fmt(" head%d", h); tally("heads_selected"); };
    auto check_rev = [&](const char *k) -> bool { // the next whole revolution against the track
        long c0 = dr.calls; if (!dr.revolution()) { bad("index", "no index point"); return false; } long p = dr.calls - c0; if (period && labs(p - period) > 42) { bad("rotation", fmt("revolution of %ld steps after one of %ld", p, period)); return false; } if (!period) { period = p; long lo = 14L * (g.bpt - 6), hi = 14L * (g.bpt + 4); if (p < lo || p > hi) { bad("rotation", fmt("revolution of %ld steps for %d bytes", p, g.bpt)); return false; } }
        const Track &t = vol[cyl][head]; auto e = stream(g, t); tally("revolutions"); tally("bytes_read", dr.got.size()); tally("records_read", t.r.size());
        size_t n = std::min(e.size(), dr.got.size()); for (size_t i = 0; i < n; i++) { if (e[i].v != dr.got[i]) { bad(k, fmt("cylinder %d head %d: byte %zu of %zu handed over is %02x, wanted %02x", cyl, head, i, e.size(), dr.got[i], e[i].v)); return false; } bool wam = g.b14 && e[i].k < BYTE; if ((dr.gam[i] != 0) != wam) { bad("mark", fmt("address mark %d at byte %zu of cylinder %d head %d", dr.gam[i], i, cyl, head)); return false; } }
        if (e.size() != dr.got.size()) { bad(k, fmt("cylinder %d head %d: %zu bytes handed over, wanted %zu (%zu records)", cyl, head, dr.got.size(), e.size(), t.r.size())); return false; } return true; };
    dasd_settags(d, 0x81, 0x00);
    for (int op = 0; op < nops; op++) {
        int w = r.below(12); sig = sig * 31 + w;
        if (w < 3) {    // seek
            int c = r.one_in(8) ? cyl : r.pick(cyls); bool recal = r.one_in(6); if (recal) c = 0; hist += fmt(recal ? " recal" : " seek%d", c); int diff = c > cyl ? c - cyl : cyl - c; int nh = r.pick(heads);
            dasd_settags(d, 0x03, 0); dasd_settags(d, 0x00, 0xff); // not selected: ignored
            if (recal) { dasd_settags(d, 0x81, 0x02); head = 0; } else { dasd_settags(d, 0x41, (uint8_t)c); if (g.b14) { dasd_settags(d, 0x21, (uint8_t)((c > cyl ? 0x80 : 0) | (nh & 15))); head = nh & 15; } dasd_settags(d, 0x11, (uint8_t)diff); dasd_settags(d, 0x81, 0x20); }
            bool moving = recal || diff != 0; if (moving && (!dasd_check_seek(d) || ((dasd_gettags(d) & 0x80) != 0) != g.b14)) { bad("seek-busy", fmt("seek %d tags %02x while moving", dasd_check_seek(d), dasd_gettags(d))); break; }
            int n = 0; if (r.one_in(3)) for (int i = r.below(40); i > 0; i--) { uint8_t b; dr.read(&b); step_count++; advance(); } while (dasd_check_seek(d) && n++ < 400000) { step_count++; advance(); } if (dasd_check_seek(d)) { bad("seek-end", "seek does not end"); break; }
            if (moving && !dasd_check_attn(d)) { bad("seek-attention", "no attention after a seek"); break; } cyl = c; if (dasd_cur_cyl(d) != (uint8_t)cyl) { bad("seek-cylinder", fmt("at cylinder %d, wanted %d", dasd_cur_cyl(d), cyl)); break; } if (((dasd_gettags(d) & 0x80) == 0) != g.b14) { bad("seek-ready", fmt("tags %02x after a seek", dasd_gettags(d))); break; }
            dasd_settags(d, 0x81, 0x40); if (dasd_check_attn(d)) { bad("seek-attention", "attention stays after the read gate"); break; } dasd_settags(d, 0x81, 0); synced = false; tally("seeks"); if (!g.b14) sethead(nh); else if (head >= g.heads) sethead(0);
        } else if (w < 4) { sethead(r.pick(heads)); synced = false;
        } else if (w < 5) { // head advance
            hist += " adv"; if (g.b14) { dasd_settags(d, 0x81, 0x01); dasd_settags(d, 0x81, 0x01); } else dasd_settags(d, 0x89, 0); head++; synced = false; if (head == g.heads) { head = 0; eoc = true; if (!(dasd_gettags(d) & 4)) { bad("end-of-cylinder", "not signalled behind the last head"); break; } tally("ends_of_cylinder"); sethead(0); } else if (!eoc && (dasd_gettags(d) & 4)) { bad("end-of-cylinder", fmt("signalled at head %d", head)); break; }
        } else if (w < 7) { hist += " read"; if (!synced) { if (!dr.to_index()) { bad("index", "no index point"); break; } dr.revolution(); } if (!check_rev("read")) break; synced = true;
        } else if (w < 8) { // stepped while not selected, then resynchronised by the gate
            hist += " unsel"; long n = r.range(1, 14 * g.bpt * 2); uint8_t ix; bool was = false; for (long i = 0; i < n; i++) { ix = 0; dasd_step(d, &ix); was = was || ix; } (void)was; dasd_settags(d, 0x81, 0x44); dasd_settags(d, 0x81, 0x00); int cp0 = d->cpos, st0 = d->state; dr.revolution(); auto e = stream(g, vol[cyl][head]); auto behind = [&](int at) -> size_t { size_t pos = g.g4 + 1, i = 0; for (; i < e.size() && (long)pos < at + 3; i++) { if (i && e[i].k < BYTE) pos += e[i].k == SYNC_R0 ? g.g1 : g.g2; pos++; } if (g.b14) while (i < e.size() && e[i].k >= BYTE) i++; return e.size() - i; }; if (dr.got.size() > e.size()) { bad("resync", "more bytes than the track holds"); break; }
            size_t o = e.size() - dr.got.size(); bool okk = true; for (size_t i = 0; i < dr.got.size() && okk; i++) if (dr.got[i] != e[o + i].v) { okk = false; bad("resync", fmt("cylinder %d head %d: after %ld steps byte %zu of the last %zu is %02x, wanted %02x", cyl, head, n, i, dr.got.size(), dr.got[i], e[o + i].v)); }
            if (okk && n > 14 * 200 && dr.got.size() < behind(cp0)) { okk = false; bad("resync", fmt("cylinder %d head %d: after %ld steps (position %d, state %d) only %zu bytes, wanted %zu", cyl, head, n, cp0, st0, dr.got.size(), behind(cp0))); }
            if (!okk) break; tally("resyncs"); synced = true;
        } else if (w < 9) { // read with address mark search from the middle of a revolution
            hist += " ams"; long n = r.range(1, 14 * g.bpt); uint8_t b; if (!synced) { dr.to_index(); dr.revolution(); } for (long i = 0; i < n; i++) dr.read(&b); if (d->cpos > g.bpt - 60) dr.revolution(); dasd_settags(d, 0x81, 0x00); dasd_settags(d, 0x81, 0x45 & (g.b14 ? 0xfe : 0xff)); dr.revolution(); auto e = stream(g, vol[cyl][head]); 
            if (dr.got.size()) { if (dr.got.size() > e.size()) { bad("search", "more bytes than the track holds"); break; } size_t o = e.size() - dr.got.size(); if (!(g.b14 ? e[o].k < BYTE : (e[o].k == SYNC_AM || e[o].k == SYNC_HA))) { bad("search", fmt("first byte after an address mark search is byte %zu of the track, no address mark", o)); break; } bool okk = true; for (size_t i = 0; i < dr.got.size(); i++) if (dr.got[i] != e[o + i].v) { bad("search", fmt("byte %zu after the address mark is %02x, wanted %02x", i, dr.got[i], e[o + i].v)); okk = false; break; } if (!okk) break; tally("searches"); }
            dasd_settags(d, 0x81, 0x00); synced = true; if (!check_rev("read")) break;
        } else { // write
            Track &t = vol[cyl][head]; if (!synced) { if (!dr.to_index()) { bad("index", "no index point"); break; } dr.revolution(); synced = true; }
            bool fmtw = r.one_in(2); size_t k = r.below(t.r.size() + (fmtw ? 1 : 0) + 0); if (!fmtw && t.r.empty()) continue; dasd_settags(d, 0x81, 0x40); auto e = stream(g, t); dr.got.clear(); dr.gam.clear();
            // count the bytes handed over before the place where writing begins
            size_t want = 1 + field(g, 5); for (size_t i = 0; i < k; i++) want += 1 + field(g, 9) + (t.r[i].key.size() ? 1 + field(g, t.r[i].key.size()) : 0) + 1 + field(g, t.r[i].data.size());
            if (!fmtw) { want += 1 + field(g, 9); bool keytoo = t.r[k].key.size() && r.one_in(2); hist += fmt(" update%zu%s", k, keytoo ? "k" : ""); if (g.b14) dasd_settags(d, 0x81, 0x40); bool okk = dr.take(want); if (okk && t.r[k].key.size() && !keytoo) okk = dr.take(1 + field(g, t.r[k].key.size())); if (!okk) { bad("position", "record not found before an update"); break; }
                Rec x = t.r[k]; if (keytoo) x.key = rnd(r, x.key.size()); x.data = rnd(r, x.data.size()); dasd_settags(d, 0x81, 0x80); if (g.b14 && !(dasd_gettags(d) & 0x10)) { bad("write-current", "no write current with the write gate up"); break; } if (keytoo) dr.keydata(x); else { dr.gap(g.b14 ? 0x9 : 0xe); dr.wfield(x.data, 0, 0); } t.r[k] = x; dasd_settags(d, 0x81, 0x00); tally("updates");
            } else { hist += fmt(" format%zu", k); if (!dr.take(want)) { bad("position", "record not found before a format write"); break; } t.r.resize(k); fill(r, g, t, cyl, head, k + r.range(k == 0, 4)); dasd_settags(d, 0x81, 0x80);
                for (size_t i = k; i < t.r.size(); i++) { if (i == 0) { t.r[0].c[0] &= 0x7f; dr.gap(g.b14 ? 0xb : 0xe); } else dr.amgap(); dr.count(t.r[i], i); dr.keydata(t.r[i]); tally("records_formatted"); } if (t.r.size() || 1) dr.erase(); dasd_settags(d, 0x81, 0x00); tally("formats"); }
            if (C().verbose) for (auto &x : t.r) fprintf(stderr, "rec %s key %s data(%zu) %s\n", hex(cstr(x)).c_str(), hex(x.key).c_str(), x.data.size(), hex(x.data).c_str()); if (!r.one_in(3)) { dr.revolution(); if (!check_rev("readback")) break; } else { synced = false; tally("blind_writes"); }
        }
        sig = sig * 131 + cyl * 64 + head;
    }
    if (r.one_in(3) && dasd_check_seek(d)) { }
    dasd_detach(d); if (online(d)) bad("offline", "drive online after a detach"); free(d);
    struct stat st; stat(fn.c_str(), &st); if ((size_t)st.st_size != 512 + ts * g.heads * g.cyl) bad("file-size", fmt("image is %ld bytes long", (long)st.st_size));
    if (slice(fn, 0, 512) != header(g)) bad("header", "header changed"); std::string zero(ts * g.heads, 0); { int c; int tries = 20; do c = r.below(g.cyl); while (vol.count(c) && tries-- > 0); if (!vol.count(c) && slice(fn, 512 + ts * g.heads * c, ts * g.heads) != zero) bad("other-cylinder", fmt("cylinder %d changed", c)); for (auto &v : vol) for (int n : { v.first - 1, v.first + 1 }) if (n >= 0 && n < g.cyl && !vol.count(n) && slice(fn, 512 + ts * g.heads * n, ts * g.heads) != zero) bad("other-cylinder", fmt("cylinder %d changed", n)); }
    if (C().nviol.size() == 0 || 1) for (auto &v : vol) for (int h = 0; h < g.heads; h++) { Track t; std::string s = slice(fn, 512 + ts * (v.first * g.heads + h), ts); const Track &w = v.second[h]; bool same = decode(s, t) && memcmp(t.ha, w.ha, 5) == 0 && t.r.size() == w.r.size(); for (size_t i = 0; same && i < t.r.size(); i++) same = cstr(t.r[i]) == cstr(w.r[i]) && t.r[i].key == w.r[i].key && t.r[i].data == w.r[i].data; if (!same) { bad("file", fmt("cylinder %d head %d of the file differs from what was written (%zu records, wanted %zu)", v.first, h, t.r.size(), w.r.size())); h = g.heads; } tally("tracks_compared"); }
    if (!getenv("KEEP")) unlink(fn.c_str()); seen("histories", sig); if (ci % 499 == 0) sample(std::string(g.name) + hist);
}
// ---------------------------------------------------------------------------------------------- hostile
static void hostile(uint64_t ci, Rng &r) {
    const Geo &g = G[r.below(4)]; std::string fn = C().scratch + "/h.ckd"; std::string img = header(G[r.below(3) ? 0 : r.below(4)]); const Geo &o = G[r.below(3)];
    int kind = r.below(6); if (kind == 0) img = header(o); if (kind == 1) for (int i = 8; i < 24; i++) if (r.one_in(4)) img[i] = (char)r.u32();
    int nt = r.range(0, 60); std::string body; for (int i = 0; i < nt; i++) { if (r.one_in(3)) { std::string t(tracksize(g), 0); for (auto &c : t) c = r.one_in(3) ? (char)0xff : (char)r.u32(); body += t; } else { Track t; memset(t.ha, 0, 5); t.r.push_back(rec(0, i, 0, "", std::string(8, 0))); t.r.push_back(rec(0, i, 1, "k", std::string(r.below(100), 1))); std::string s = pack(g, t); for (int k = 0; k < 4; k++) s[5 + r.below(60)] = (char)r.u32(); body += s; } } img += body; if (r.one_in(3)) img.resize(r.below(img.size() + 1)); spill(fn, img);
    struct _dasd_t *d = mk(g); note("hostile attach"); int rc = dasd_attach(d, (char *)fn.c_str(), r.one_in(20)); note("hostile use"); tally("hostile_images"); tally(rc == 1 ? "hostile_attached" : "hostile_refused");
    if (rc == 1) { int n = r.range(5, 60); for (int i = 0; i < n; i++) { uint8_t b = 0, am = 0, ix = 0; int k = r.below(6); int m = r.range(1, 14 * 3000); bool wr = r.one_in(3); std::string junk = rnd(r, 64);
            if (k < 2) { for (int j = 0; j < m; j++) { b = wr ? (r.one_in(40) ? 0xe : r.one_in(40) ? 0xd : (uint8_t)junk[j & 63]) : 0; am = wr && r.one_in(9); ix = 0; wr ? dasd_write_byte(d, &b, &am, &ix) : dasd_read_byte(d, &b, &am, &ix); if (j % 14 == 0) { step_count++; advance(); } } tally("hostile_steps", m); }
            else if (k == 2) { for (int j = 0; j < m; j++) { ix = 0; dasd_step(d, &ix); } if (r.one_in(2)) dasd_update(d); }
            else { static const uint8_t fts[] = { 0x81, 0x41, 0x21, 0x11, 0x89, 0x81, 0x81 }; dasd_settags(d, r.one_in(6) ? (uint8_t)r.u32() : r.pick(fts), (uint8_t)r.u32()); for (int j = r.below(80); j > 0; j--) { step_count++; advance(); } } }
        for (int j = 0; j < 300; j++) { step_count++; advance(); } dasd_detach(d); }
    note(""); free(d); unlink(fn.c_str()); seen("histories", fmt("h%s%d%d%d", g.name, kind, rc, nt / 8));
}
int main(int argc, char **argv) {
    init(argc, argv); log_level = 0; umask(077);
    for (int i = 0; i < 60000 && false; i++) advance();
    cases([&](uint64_t i, Rng &r) { if (C().mode == "volume") volume(i, r); else if (C().mode == "stream") streams(i, r); else hostile(i, r); }, 60);
    return finish();
}
