// Configuration files and command lines, the log and the device list.
//   mode conf: files of generated lines; every device, controller, unit and processor line must reach its
//              create routine once, in order, with the model, numbers, address, options and values it spells;
//              hostile lines may be rejected but must end and must not disturb the lines after them.
//   mode log : every message of an enabled class is in the log once, in order, labelled; no other message is.
//   mode dev : add_chan/find_chan/del_chan and add_disk/del_disk/step_disk against plain lists.
#include "vh.hpp"
extern "C" {
#include "device.h"
#include "conf.h"
#include "logger.h"
uint64_t step_count;
void system_init(void *); void system_shutdown(); void del_chan(device_t *, uint16_t);
void add_disk(void (*)(void *), void *); void del_disk(void *); void step_disk();
}
using namespace vh;
struct Opt { std::string name, val; bool has; };
struct Got { std::string name; int model, flags, dash, slash, addr; std::vector<Opt> o; };
static std::vector<Got> got; static int refuse_at; static int loops; static long consumed;
static int take(struct _option *opt, int typ, int want_int) {
    Got g; g.name = opt->opt; g.model = (unsigned char)opt->model; g.flags = opt->flags & 3; g.dash = opt->dash_num; g.slash = opt->slash_num;
    g.addr = typ == CPU_TYPE ? -1 : opt->addr; struct _option o; memset(&o, 0x55, sizeof o); int n = 0;
    while (get_option(&o)) {
        if (strnlen(o.opt, sizeof o.opt) >= sizeof o.opt) { violation("conf:option-not-terminated", "option name fills its array"); break; }
        if (strnlen(o.string, sizeof o.string) >= sizeof o.string) { violation("conf:value-not-terminated", "option value fills its array"); break; }
        g.o.push_back({ o.opt, o.flags ? o.string : "", o.flags != 0 });
        if (++n > 3000) { violation("conf:options-never-end", "get_option keeps returning options for one line: last " + std::string(o.opt)); break; }
    }
    got.push_back(g);
    return (int)got.size() - 1 != refuse_at;
}
#define C_(id, typ) static int c_##id(struct _option *o) { return take(o, typ, 0); }
C_(a, UNIT_TYPE) C_(b, DEV_TYPE) C_(c, CTRL_TYPE) C_(d, CPU_TYPE) C_(e, DEV_TYPE) C_(f, DEV_TYPE) C_(g, CTRL_TYPE)
// dev_list() steps back over the list until an entry is not one: the first gives it one in bounds to end on.
#define E_(nm, id, typ) { (char *)nm, typ, 0, c_##id, NULL, DEV_LIST_MAGIC }
extern "C" { __attribute__((used, section(".devlist"), aligned(1))) struct _control mocks[8] = { { (char *)"", 0, 0, NULL, NULL, 0 },
  E_("2540", a, UNIT_TYPE), E_("1403", b, DEV_TYPE), E_("2821", c, CTRL_TYPE), E_("9020", d, CPU_TYPE), E_("3", e, DEV_TYPE), E_("DRUM", f, DEV_TYPE), E_("ABCDEFGHIJKLMNOPQRS", g, CTRL_TYPE) }; }
static const char *names[] = { "2540", "1403", "2821", "9020", "3", "DRUM", "ABCDEFGHIJKLMNOPQRS" };
static std::string mixcase(Rng &r, std::string s) { int m = r.below(3); for (auto &c : s) if (m == 0 || (m == 1 && r.one_in(2))) c = tolower(c); return s; }
static std::string upper(std::string s) { for (auto &c : s) c = toupper(c); return s; }
static std::string ws(Rng &r, int min) { std::string s; int n = min + (r.one_in(3) ? r.below(4) : 0); while (n--) s += r.one_in(4) ? '\t' : ' '; return s; }
static std::string word(Rng &r, int max, const char *set) { std::string s; int n = r.one_in(6) ? max : r.range(1, std::min(max, 8)); while (n--) s += set[r.below(strlen(set))]; return s; }
static std::string good(Rng &r, Got &g, bool &known) {
    std::string l = ws(r, 0); known = !r.one_in(8);
    static const char *other[] = { "2", "9021", "DRUMS", "DRU", "25400", "ABCDEFGHIJKLMNOPQR", "Z" };
    g.name = known ? names[r.below(7)] : other[r.below(7)]; bool num = isdigit((unsigned char)g.name[0]);
    l += mixcase(r, g.name); g.model = 0; g.flags = 0; g.dash = g.slash = 0; g.o.clear();
    if (num && r.chance(40)) { g.model = "ABCDEFGHIRPUZ"[r.below(13)]; l += r.one_in(2) ? (char)g.model : (char)tolower(g.model); }
    auto dash = [&] { g.flags |= 1; g.dash = r.one_in(8) ? r.below(1000000) : r.below(20); l += fmt(r.one_in(20) ? "-%04d" : "-%d", g.dash); };
    auto slash = [&] { g.flags |= 2; g.slash = r.one_in(8) ? r.below(1000000) : r.below(20); l += fmt(r.one_in(20) ? "/%04d" : "/%d", g.slash); };
    int k = r.below(8); if (k == 0) dash(); else if (k == 1) slash(); else if (k == 2) { dash(); slash(); } else if (k == 3) { slash(); dash(); }
    bool cpu = g.name == "9020";
    g.addr = -1;
    if (!cpu) { g.addr = r.one_in(6) ? r.below(65536) : r.below(0x800); l += ws(r, 1) + (r.one_in(3) ? fmt("%x", g.addr) : r.one_in(2) ? fmt("%03x", g.addr) : r.one_in(6) ? fmt("%0*x", r.range(5, 18), g.addr) : fmt("%04X", g.addr)); }
    int n = r.one_in(3) ? 0 : r.below(6); bool glued = false;
    for (int i = 0; i < n && l.size() < 700; i++) {
        Opt o; o.name = upper(word(r, 19, "abcdefghijklmnopqrstuvwxyz0123456789-")); o.has = r.chance(60);
        l += glued && r.one_in(4) ? std::string(r.one_in(2) ? "," : " , ") : ws(r, 1); glued = true;
        l += mixcase(r, o.name);
        if (o.has) {
            l += "="; if (r.one_in(8)) l += ws(r, 1);
            if (r.one_in(2)) { // quoted: any character
                int len = r.one_in(20) ? 200 : r.below(24); l += '"';
                while (len--) { char c = r.one_in(5) ? '"' : r.one_in(20) ? (char)(0x80 + r.below(0x80)) : (char)r.range(32, 126); o.val += c; l += c; if (c == '"') l += c; }
                l += '"';
            } else { glued = false;
                static const char set[] = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789./_-+:~@$%&*()[];'\\!<>?";
                int len = r.one_in(20) ? 120 : r.range(1, 14); while (len--) { char c = set[r.below(sizeof set - 1)]; l += c; o.val += toupper((unsigned char)c); }
            }
        }
        g.o.push_back(o);
    }
    if (r.one_in(4)) l += ws(r, 1) + "# " + word(r, 30, "abc=\"#,-/ 123"); else l += ws(r, 0);
    return l;
}
static std::string hostile(Rng &r) {
    Got g; bool k; std::string l = good(r, g, k); int m = r.below(8);
    if (m == 0) { l.clear(); int n = r.below(r.one_in(3) ? 1000 : 40); while (n--) l += (char)r.range(1, 255); }
    else if (m == 1) l = std::string(names[r.below(7)]) + word(r, 60, "-/0123456789ABC") + " " + l;
    else if (m == 2) l = std::string(names[r.below(6)]) + " " + std::string(r.range(1, 300), 'a') + " " + word(r, 40, "xyz=\"");
    else if (m == 3) l = std::string(names[r.below(6)]) + " 00c " + std::string(r.range(1, 100), 'k') + "=" + std::string(r.range(0, 800), 'v');
    else if (m == 4) l = std::string(names[r.below(6)]) + " 00c file=\"" + std::string(r.range(0, 900), r.one_in(2) ? '"' : 'q') + (r.one_in(2) ? "\"" : "");
    else { int n = r.range(1, 6); for (int i = 0; i < n && !l.empty(); i++) { int p = r.below(l.size()); int q = r.below(4); static const char sp[] = "\"=,-/#\t $%\xff\x80"; if (q == 0) l.erase(p, r.range(1, 5)); else if (q == 1) l.insert(p, 1, sp[r.below(sizeof sp - 1)]); else l[p] = sp[r.below(sizeof sp - 1)]; } }
    for (auto &c : l) if (c == '\n' || c == 0) c = ' ';
    if (l.size() > 1000) l.resize(1000);
    return l;
}
static std::string show(const Got &g) { std::string s = fmt("%s model %c flags %d -%d /%d addr %x", g.name.c_str(), g.model ? g.model : '_', g.flags, g.dash, g.slash, g.addr); for (auto &o : g.o) s += " [" + o.name + (o.has ? "=" + o.val : std::string()) + "]"; return s; }
static bool same(const Got &a, const Got &b) {
    if (a.name != b.name || a.model != b.model || a.flags != b.flags || ((a.flags & 1) && a.dash != b.dash) || ((a.flags & 2) && a.slash != b.slash) || a.addr != b.addr || a.o.size() != b.o.size()) return false;
    for (size_t i = 0; i < a.o.size(); i++) if (a.o[i].name != b.o[i].name || a.o[i].has != b.o[i].has || a.o[i].val != b.o[i].val) return false;
    return true;
}
static void compare(const std::vector<Got> &want, const std::string &text) {
    size_t n = std::min(want.size(), got.size());
    for (size_t i = 0; i < n; i++) if (!same(want[i], got[i])) { violation("conf:line-read-wrong", fmt("definition %zu: wanted %s got %s of ", i, show(want[i]).c_str(), show(got[i]).c_str()) + text.substr(0, 900)); return; }
    if (want.size() != got.size()) violation("conf:definitions-lost-or-added", fmt("%zu definitions wanted, %zu made of ", want.size(), got.size()) + text.substr(0, 1200));
}
static FILE *quiet; 
static void case_conf(uint64_t ci, Rng &r) {
    // one file of well-formed lines, comments, blanks and unknown devices, optionally a create routine refusing
    std::vector<Got> want; std::string text; int n = r.range(1, 25); bool stop = false; int defs = 0; refuse_at = r.one_in(5) ? r.below(n) : -1;
    int lines = 0; bool wantrc = 1; int wl = log_level = 0;
    for (int i = 0; i < n; i++) {
        int k = r.below(12); std::string l;
        if (k == 0) l = ws(r, 0) + "# " + word(r, 40, "2540 00c=\"abc");
        else if (k == 1) l = ws(r, 0);
        else if (k == 2) { static const char *cl[] = { "INFO", "WARN", "ERROR", "TRACE", "ITRACE", "MICRO", "REG", "MEM", "MPXCHN", "SELCHN", "DEVICE", "CONSOLE", "TAPE", "DISK", "CARD", "DMICRO", "DREG", "EVENT", "FREG" };
            l = mixcase(r, "LOGLEVEL"); int c = r.range(1, 5); while (c--) { int b = r.below(19); l += (r.one_in(4) ? ", " : " ") + mixcase(r, cl[b]); if (!stop) wl |= 1 << b; } tally("loglevel_lines"); }
        else if (k == 3 && !stop && r.one_in(2)) { l = mixcase(r, r.one_in(2) ? "logenable" : "logdisable"); }
        else if (k == 4 && r.one_in(12)) { // an address which is missing, or a class which is none, ends the load
            if (r.one_in(3)) l = mixcase(r, "LOGLEVEL") + " NOCLASS"; else l = std::string(names[r.below(3)]) + ws(r, 0) + (r.one_in(3) ? "" : r.one_in(2) ? " # 00c" : " zz=1"); stop = true; wantrc = 0; tally("files_ended_by_error"); }
        else {
            Got g; bool known; l = good(r, g, known); for (auto &o : g.o) tally(o.has ? "options_with_value" : "options_without_value");
            if (known) { if (!stop) { want.push_back(g); if ((int)want.size() - 1 == refuse_at) { stop = true; wantrc = 0; } } }
            else tally("unknown_devices");
        }
        text += l; if (i + 1 < n || r.one_in(2)) text += "\n"; lines++;
    }
    std::string fn = C().scratch + "/c.cfg"; FILE *f = fopen(fn.c_str(), "w"); fwrite(text.data(), 1, text.size(), f); fclose(f);
    got.clear(); int e0 = log_enable; int rc = load_config((char *)fn.c_str());
    compare(want, text); if (rc != wantrc) violation("conf:result", fmt("load_config returned %d, wanted %d for ", rc, wantrc) + text.substr(0, 1200));
    if (log_level != wl) violation("conf:log-level", fmt("log level %x, wanted %x for ", log_level, wl) + text.substr(0, 1200));
    log_enable = 0; log_level = 0; tally("lines", lines); tally("definitions", got.size()); seen("files", text); if (ci % 997 == 0) sample(text.substr(0, 300));
    // single lines: hostile ones between well-formed ones
    for (int i = 0; i < 6; i++) {
        refuse_at = -1; got.clear(); std::string h = hostile(r); note("conf hostile line"); std::vector<char> b(h.begin(), h.end()); if (r.one_in(2)) b.push_back('\n'); b.push_back(0);
        load_line(b.data()); log_level = 0; tally("hostile_lines"); seen("hostile", h); tally("hostile_accepted", got.size());
        Got g; bool known; std::string l = good(r, g, known); got.clear(); std::vector<char> b2(l.begin(), l.end()); b2.push_back(0);
        int rc = load_line(b2.data()); std::vector<Got> w; if (known) w.push_back(g);
        compare(w, l + " after hostile line " + h); if (!rc) violation("conf:result", "well-formed line refused: " + l); tally("lines");
        note("");
    }
    // a line without the address it needs must be refused and must create nothing
    { got.clear(); std::string l = std::string(names[r.below(3)]) + ws(r, 0) + (r.one_in(3) ? "" : r.one_in(2) ? " # 00c" : " xyz=1"); std::vector<char> b(l.begin(), l.end()); b.push_back(0); int rc = load_line(b.data());
      if (rc || !got.empty()) violation("conf:missing-address", "line without an address was accepted: " + l); tally("missing_address"); }
    // a device which refuses to be created makes its line fail
    { Got g; bool known = false; std::string l; while (!known) l = good(r, g, known); got.clear(); refuse_at = 0; std::vector<char> b(l.begin(), l.end()); b.push_back(0); int rc = load_line(b.data()); refuse_at = -1; if (rc || got.size() != 1) violation("conf:refused", fmt("line of a device which refused gave %d: ", rc) + l); tally("refusals"); }
    struct _option o; memset(&o, 0, sizeof o); int v = -1; long x = r.one_in(3) ? r.below(0x7fffffff) : r.below(100000); strcpy(o.string, fmt("%ld", x).c_str());
    if (!get_integer(&o, &v) || v != x) violation("conf:integer", fmt("%s read as %d", o.string, v)), 0;
    strcpy(o.string, (fmt("%ld", x) + "abz. -"[r.below(6)]).c_str()); if (get_integer(&o, &v)) violation("conf:integer", std::string("accepted as a number: ") + o.string);
    char *list[] = { (char *)"AUTO", (char *)"ASCII", (char *)"EBCDIC", (char *)"BIN", NULL }; int ix = r.below(4); strcpy(o.string, list[ix]); if (get_index(&o, list) != ix) violation("conf:index", o.string);
    strcpy(o.string, "EBCDI"); if (get_index(&o, list) != -1) violation("conf:index", "unknown value accepted");
}
static void case_log(uint64_t ci, Rng &r) {
    // what goes to standard error is collected as well: the three classes that are always shown
    char *eb = NULL; size_t en_ = 0; FILE *esave = stderr; stderr = open_memstream(&eb, &en_); std::string wanterr;
    auto eread = [&] { fflush(stderr); return std::string(eb, en_); };
    std::string fn = C().scratch + "/l.log"; log_enable = 0; log_level = 0; bool viaconf = r.one_in(4);
    if (viaconf) { std::string l = "LOGFILE \"" + fn + "\"\n"; std::vector<char> b(l.begin(), l.end()); b.push_back(0); if (!load_line(b.data()) || !log_file) { violation("log:file", "LOGFILE line refused"); if (!log_file) log_init((char *)fn.c_str()); } tally("logfile_lines"); wanterr = eread(); }
    else log_init((char *)fn.c_str());
    if (r.one_in(3)) { log_level = 0; char l[] = "LOGLEVEL DISK, CARD\n"; if (!load_line(l) || log_level != (LOG_DISK | LOG_CARD)) violation("log:level", fmt("LOGLEVEL DISK, CARD gave %x", log_level)); log_level = 0; wanterr = eread(); }
    if (r.one_in(6)) { // LOGLEVEL lines that name no class, or give a class a value, are refused
        std::string l = r.one_in(2) ? "LOGLEVEL DISK NOCLASS" : r.one_in(2) ? "LOGLEVEL TAPE=5 CARD" : "LOGLEVEL BOGUS"; std::vector<char> b(l.begin(), l.end()); b.push_back(0); if (load_line(b.data())) violation("log:level", "accepted: " + l); wanterr = eread(); tally("loglevel_refused"); }
    log_enable = 1;
    log_level = r.one_in(5) ? 0 : r.one_in(5) ? 0x7ffff : r.u32() & 0x7ffff; std::string want; int n = r.range(5, 80); uint64_t sig = log_level; int line = 0; (void)line;
    struct Part { std::string head, body; }; std::vector<Part> parts; bool openline = false; int opencls = 0; // messages in order
    step_count = r.u32();
    for (int i = 0; i < n; i++) {
        step_count += r.below(5); std::string m = fmt("m%d %s", i, word(r, 12, "abcxyz").c_str()); const char *s = m.c_str(); int k = r.below(23); bool en = true, cont = false; const char *nm = "";
        if (r.one_in(20)) log_enable = !log_enable;
        #define L(bit, NAME, CALL) nm = NAME; en = (bit) ? (log_level & (bit)) != 0 : true; CALL("%s\n", s); break;
        switch (k) {
        case 0: L(0, "INFO", log_info) case 1: L(0, "WARN", log_warn) case 2: L(0, "ERROR", log_error)
        case 3: L(LOG_TRACE, "TRACE", log_trace) case 4: L(LOG_ITRACE, "ITRACE", log_itrace) case 5: L(LOG_MICRO, "MICRO", log_micro) case 6: L(LOG_REG, "REG", log_reg)
        case 7: L(LOG_MEM, "MEM", log_mem) case 8: L(LOG_MPXCHN, "MPXCHN", log_mpxchn) case 9: L(LOG_SELCHN, "SELCHN", log_selchn) case 10: L(LOG_DEVICE, "DEVICE", log_device)
        case 11: L(LOG_CONSOLE, "CONSOLE", log_console) case 12: L(LOG_TAPE, "TAPE", log_tape) case 13: L(LOG_DISK, "DISK", log_disk) case 14: L(LOG_CARD, "CARD", log_card)
        case 15: L(LOG_DMICRO, "DMICRO", log_dmicro) case 16: L(LOG_DREG, "DREG", log_dreg) case 17: L(LOG_EVENT, "EVENT", log_event) case 18: L(LOG_FREG, "FREG", log_freg)
        case 22: { // a part of a class whose line another message may have ended: joins the line that is still open or begins one
            int t = r.below(3); int bit = t == 0 ? LOG_TAPE : t == 1 ? LOG_DISK : LOG_ITRACE; nm = t == 0 ? "TAPE" : t == 1 ? "DISK" : "ITRACE"; en = (log_level & bit) != 0; if (openline && opencls != bit) continue;
            switch (t) { case 0: log_tape_c(" %s", s); break; case 1: log_disk_c(" %s", s); break; default: log_itrace_c(" %s", s); }
            m = " " + m; cont = openline; if (en && log_enable) { openline = true; opencls = bit; } tally("late_parts"); break; }
        default: { // a line built of several parts
            int t = r.below(5); int bit = t == 0 ? LOG_ITRACE : t == 1 ? LOG_TAPE : t == 2 ? LOG_DISK : t == 3 ? LOG_CARD : LOG_FREG; nm = t == 0 ? "ITRACE" : t == 1 ? "TAPE" : t == 2 ? "DISK" : t == 3 ? "CARD" : "FREG"; en = (log_level & bit) != 0;
            std::string p2 = fmt("part%d", i); const char *q = p2.c_str();
            switch (t) { case 0: log_itrace_s("%s ", s); log_itrace_c("%s", q); break; case 1: log_tape_s("%s ", s); log_tape_c("%s", q); break; case 2: log_disk_s("%s ", s); log_disk_c("%s", q); break; case 3: log_card_s("%s ", s); log_card_c("%s", q); break; default: log_freg_s("%s ", s); log_freg_c("%s", q); }
            m += " " + p2; tally("lines_in_parts"); if (en && log_enable) { openline = true; opencls = bit; } }
        }
        if (k < 19 && en && log_enable) openline = false;
        if (k < 3) wanterr += std::string(nm) + " " + m + "\n";
        tally("messages"); sig = hash_str(m) + sig * 31 + log_enable;
        if (en && log_enable && cont) { parts.back().body += m; tally("messages_logged"); } else if (en && log_enable) { parts.push_back({ fmt("%llu: %s ", (unsigned long long)step_count, nm), m }); tally("messages_logged"); }
    }
    log_enable = 1; log_info("end\n"); wanterr += "INFO end\n"; parts.push_back({ fmt("%llu: INFO ", (unsigned long long)step_count), "end" });
    { std::string e = eread(); fclose(stderr); stderr = esave; free(eb); if (e != wanterr) { size_t i = 0; while (i < e.size() && i < wanterr.size() && e[i] == wanterr[i]) i++; violation("log:shown", "shown: '" + e.substr(i, 80) + "', wanted '" + wanterr.substr(i, 80) + "'"); } }
    fflush(log_file); std::string txt; { FILE *f = fopen(fn.c_str(), "r"); char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) txt.append(b, k); fclose(f); }
    fclose(log_file); log_file = NULL; log_level = 0; log_enable = 0;
    std::vector<std::string> lines; std::string cur; for (char c : txt) if (c == '\n') { lines.push_back(cur); cur.clear(); } else cur += c; if (!cur.empty()) lines.push_back(cur);
    size_t i = 0; for (; i < std::max(lines.size(), parts.size()); i++) {
        std::string w = i < parts.size() ? parts[i].head + parts[i].body : "(nothing)", g = i < lines.size() ? lines[i] : "(nothing)";
        // source file names and lines can be configured into the label
        size_t b = g.find(":["); if (b != std::string::npos) { size_t e = g.find("] ", b); if (e != std::string::npos) g = g.substr(0, b) + ": " + g.substr(e + 2); }
        if (w != g) { violation("log:line", fmt("log line %zu is '%s', wanted '%s'", i, g.c_str(), w.c_str())); break; }
    }
    seen("logs", sig); if (ci % 499 == 0) sample(txt.substr(0, 300));
}
static std::vector<int> stepped; static int ids[12]; static void st(void *d) { stepped.push_back((int)((int *)d - ids)); }
static std::vector<std::pair<int, int>> called; static device_t dv[24];
static void di(struct _device *d, void *) { called.push_back({ 0, (int)(d - dv) }); } static void dc(struct _device *d) { called.push_back({ 1, (int)(d - dv) }); }
static void case_dev(uint64_t ci, Rng &r) {
    memset(chan, 0, sizeof chan); memset(dv, 0, sizeof dv); disk = NULL; std::vector<int> on[8]; std::vector<int> dl; uint64_t sig = 0; bool used[24] = { false }; int addr[24];
    int maxch = 6 + 2 * r.below(2);
    for (int i = 0; i < 24; i++) { dv[i].init_device = r.one_in(3) ? NULL : di; dv[i].close_device = r.one_in(3) ? NULL : dc; }
    int n = r.range(5, 120);
    for (int i = 0; i < n; i++) {
        int k = r.below(10); sig = sig * 31 + k;
        if (k < 3) { int d = r.below(24); if (used[d]) continue; used[d] = true; addr[d] = (r.below(maxch) << 8) | r.below(256); sig += addr[d]; note("add_chan"); add_chan(&dv[d], addr[d]); on[addr[d] >> 8].push_back(d); tally("added"); if (dv[d].addr != addr[d]) violation("dev:address", "add_chan did not set the device address"); }
        else if (k < 5) { int d = r.below(24); int a = used[d] ? addr[d] : (int)((r.below(6) << 8) | r.below(256)); note("del_chan"); del_chan(&dv[d], a); if (used[d]) { auto &v = on[a >> 8]; v.erase(std::find(v.begin(), v.end(), d)); used[d] = false; tally("removed"); } }
        else if (k < 8) { static const int masks[] = { 0xff, 0xf8, 0xf0, 0x7ff, 0xfff8, 0xffff }; int m = masks[r.below(6)]; int a = (r.below(maxch) << 8) | r.below(256); int d = r.below(24); if (used[d] && r.chance(60)) a = (addr[d] & m) | (addr[d] & 0x700) | (r.below(256) & ~m & 0xff);
            int w = -1; for (int x : on[(a >> 8) & 7]) if ((addr[x] & m) == (a & m)) { w = x; break; }
            struct _device *g = find_chan(a, m); tally("lookups"); if (w >= 0) tally("found"); if (g != (w < 0 ? NULL : &dv[w])) violation("dev:lookup", fmt("find_chan(%03x,%04x) found device %d, wanted %d", a, m, g ? (int)(g - dv) : -1, w)); }
        else if (k == 8) { int d = r.below(12); if (std::find(dl.begin(), dl.end(), d) == dl.end()) { add_disk(st, &ids[d]); dl.push_back(d); } else { del_disk(&ids[d]); dl.erase(std::find(dl.begin(), dl.end(), d)); tally("disks_removed"); } }
        else { stepped.clear(); step_disk(); auto a = stepped, b = dl; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) violation("dev:disk-steps", fmt("step_disk ran %zu controllers, %zu are registered (or another one)", a.size(), b.size())); tally("disk_steps"); }
    }
    for (int c = 0; c < 8; c++) { size_t i = 0; for (device_t *d = chan[c]; d != NULL && i <= 24; d = d->next, i++) if (i >= on[c].size() || d != &dv[on[c][i]]) { violation("dev:list", fmt("channel %d device list differs at place %zu", c, i)); break; } if (i < on[c].size()) violation("dev:list", fmt("channel %d lost a device", c)); }
    for (int pass = 0; pass < 2; pass++) { called.clear(); if (pass) system_shutdown(); else system_init(NULL); std::vector<std::pair<int, int>> w; for (int c = 0; c < 8; c++) for (int d : on[c]) if (pass ? (bool)dv[d].close_device : (bool)dv[d].init_device) w.push_back({ pass, d }); if (called != w) violation(pass ? "dev:shutdown" : "dev:init", "not exactly every device was started or shut down once"); tally("devices_started_or_stopped", w.size()); }
    seen("lists", sig); if (ci % 499 == 0) sample(fmt("%d operations", n));
}
int main(int argc, char **argv) {
    init(argc, argv); log_level = 0; log_enable = 0;
    if (!C().verbose) { freopen("/dev/null", "w", stdout); }
    int e = dup(2); // diagnostics of the code under test are not wanted; the sanitizer's are
    FILE *save = stderr; stderr = fopen("/dev/null", "w");
    if (C().mode == "conf") cases(case_conf, 20); else if (C().mode == "log") cases(case_log, 20); else cases(case_dev, 20);
    return finish();
}
