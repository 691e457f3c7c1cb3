/* C22: quoting, tokenizing, splitting and substituting text: every string over an alphabet of special characters against independent references. */
#include "../ref.h"
#include "../core.h"
#include <sys/mman.h>
extern "C" {
#include "lex.h"
#include "util-str.h"
#include "util-file.h"
}
struct Tk { int tok, line; S text; bool operator==(const Tk &o) const { return tok == o.tok && line == o.line && text == o.text; } };
/* The Laws of the Lexer (lex.h). */
static std::vector<Tk> ref_lex(const S &t, const std::vector<S> &kw) {
    std::vector<Tk> v; size_t i = 0; int line = 1; bool nl = false; auto at = [&](size_t k) { return k < t.size() ? (unsigned char)t[k] : 0; }; auto al = [](int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }; auto dg = [](int c) { return c >= '0' && c <= '9'; };
    for (;;) { if (nl) line++, nl = false;   /* an end of line belongs to the line it ends */
        for (;;) { int c = at(i); if (c == ' ' || c == '\t' || c == '\v' || c == '\f') i++; else if (c == '#') while (at(i) && at(i) != '\n' && at(i) != '\r') i++; else if (c == '\\' && at(i+1) == '\n') i += 2, line++; else if (c == '\\' && at(i+1) == '\r' && at(i+2) == '\n') i += 3, line++; else break; }
        int c = at(i); if (!c) { v.push_back({LEX_EOF, line, ""}); return v; }
        if (c == '\n' || c == '\r') { i += c == '\r' && at(i+1) == '\n' ? 2 : 1; S x(1, t[i-1]); v.push_back({LEX_EOL, line, x}); nl = true; continue; }
        if (c == '"' || c == '\'') { size_t j = i + 1; while (at(j) && at(j) != c && at(j) != '\n' && at(j) != '\r') j++; if (at(j) == c) { v.push_back({LEX_STR, line, t.substr(i + 1, std::min<size_t>(j - i - 1, 1023))}); i = j + 1; } else { v.push_back({LEX_ERR, line, ""}); i = j; } continue; }
        if (al(c)) { size_t j = i; while (al(at(j)) || dg(at(j))) j++; S w = t.substr(i, std::min<size_t>(j - i, 1023)); int tok = LEX_STR; for (size_t k = 0; k < kw.size(); k++) if (!strcasecmp(kw[k].c_str(), w.c_str())) tok = LEX_TOK_OFFSET + k; v.push_back({tok, line, w}); i = j; continue; }
        if (dg(c) || ((c == '-' || c == '+') && dg(at(i+1)))) { size_t j = i + 1; while (dg(at(j))) j++; v.push_back({LEX_INT, line, t.substr(i, std::min<size_t>(j - i, 1023))}); i = j; continue; }
        v.push_back({c, line, S(1, t[i])}); i++; }
}
/* text placed so that reading one byte too far faults */
static char *guarded(const S &t) { static char *m; static size_t pg = 16384; if (!m) { m = (char*)mmap(0, pg + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m + pg, 4096, PROT_NONE); } char *p = m + pg - t.size() - 1; memcpy(p, t.data(), t.size()); p[t.size()] = 0; return p; }
static void lex_one(const S &t, const std::vector<S> &kw, char **ckw) {
    next_case(); std::vector<Tk> want = ref_lex(t, kw); char *b = guarded(t); Lex l = lex_create(b, ckw); std::vector<Tk> got; for (;;) { int k = lex_next(l); got.push_back({k, lex_line(l), lex_text(l)}); REQUIRE(lex_prev(l) == k, "\"%s\": the last token is not remembered", esc(t).c_str()); if (k >= LEX_TOK_OFFSET) REQUIRE(lex_tok_to_str(l, k) && kw[k - LEX_TOK_OFFSET] == lex_tok_to_str(l, k), "\"%s\": token %d is not a keyword", esc(t).c_str(), k); if (k == LEX_EOF || got.size() > t.size() + 2) break; }
    int again = lex_next(l); REQUIRE(again == LEX_EOF, "\"%s\": a token follows the end", esc(t).c_str()); REQUIRE(!memcmp(b, t.data(), t.size()), "\"%s\": the text is modified", esc(t).c_str());
    auto show = [](const std::vector<Tk> &v) { S s; for (auto &x : v) s += fmt("%d@%d:'%s' ", x.tok, x.line, esc(x.text).c_str()); return s; }; if (!(got == want)) fail("\"%s\" is tokenized as %s instead of %s", esc(t.substr(0, 200)).c_str(), show(got).substr(0, 400).c_str(), show(want).substr(0, 400).c_str()); lex_destroy(l); }
static std::function<void()> job; static int job_main(int, char **) { job(); return 0; }
static void in_proc(std::function<void()> f) { job = f; Proc *p = start_proc("conmand", job_main, {"text"}); settle(); REQUIRE(p->exited && p->code == 0 && !p->killed_by, "ended with %d", p->code); mem_check_all(); }
static char *KW[] = {(char*)"a1", (char*)"Ab", (char*)"b", nullptr}; static const std::vector<S> KV = {"a1", "Ab", "b"};
static void all(S &t, int n, const S &al, const std::function<void()> &f) { f(); if (!n) return; for (char c : al) { t += c; all(t, n - 1, al, f); t.pop_back(); } }
SCENARIO(lex_strings, "C22", 0,0,0, 0,0,0, "every text of up to 6 (thorough: 7) characters over 15 (letters, digit, sign, both quotes, backslash, CR, LF, comment, blank, tab, punctuation, a byte above 127) is tokenized as the laws say, lines counted, nothing read beyond the end") {
    static const S AL = S("aB1-\"'\\\n\r# \v=_\xe9"); int x = pick(AL.size(), "first"), y = pick(AL.size(), "second"); in_proc([&]{ S t = {AL[x], AL[y]}; if (!y) { S u(1, AL[x]); lex_one(u, KV, KW); if (!x) lex_one("", KV, KW); } all(t, g_thorough ? 5 : 4, AL, [&]{ lex_one(t, KV, KW); }); }); outcome(fmt("%d", x)); }
SCENARIO(lex_bytes, "C22", 0,0,0, 0,0,0, "every pair of bytes, bare, in either quotes, in a word, after a backslash, in a comment, on a second line") { int a = 1 + pick(255, "byte"); in_proc([&]{ for (int b = 1; b < 256; b++) for (int k = 0; k < 7; k++) { S x = {(char)a, (char)b}; const char *pre[] = {"", "\"", "'", "a", "\\", "#", "x\n"}, *post[] = {"", "\" z", "' z", "b", "b", "\nz", " z"}; lex_one(pre[k] + x + post[k], KV, KW); } }); }
SCENARIO(lex_long, "C22", 0,0,0, 0,0,0, "words, numbers, quoted strings, comments, blanks and lines of lengths around 0, 1, 1022 to 1026, 4096, 12000, terminated or not") { static const int LN[] = {0, 1, 2, 1022, 1023, 1024, 1025, 1026, 2048, 4095, 4096, 12000}; int n = LN[pick(12, "length")], k = pick(9, "kind"), e = pick(4, "end"); in_proc([&]{ static const char *ends[] = {"", "\n", " x", "\r\ny=1"}; S t; switch (k) { case 0: t = S(n, 'w'); break; case 1: t = S(n, '7'); break; case 2: t = "-" + S(n, '7'); break; case 3: t = "\"" + S(n, 's') + "\""; break; case 4: t = "'" + S(n, '#') + "'"; break; case 5: t = "\"" + S(n, 's'); break; case 6: t = "#" + S(n, 'c'); break; case 7: t = S(n, ' '); break; case 8: for (int i = 0; i < n; i++) t += i % 3 ? "\n" : "\\\n"; break; } if (t.size() > 14000) return; lex_one(t + ends[e], KV, KW); }); }
SCENARIO(lex_keywords, "C22", 0,0,0, 0,0,0, "every set of up to 7 keywords of 9, every word of up to 3 letters in either case: recognised if and only if it is a keyword") {
    static const char *W9[] = {"A", "aa", "AB", "abc", "b", "BA", "bb", "c_1", "CC"}; int m = pick(512, "keywords"); if (__builtin_popcount(m) > 7) return; in_proc([&]{ std::vector<S> kv; static char *kw[12]; int n = 0; for (int i = 0; i < 9; i++) if (m >> i & 1) { kv.push_back(W9[i]); kw[n++] = (char*)W9[i]; } kw[n] = nullptr; S t; all(t, 3, "aAbBc1_", [&]{ lex_one(t + "=", kv, kw); }); lex_one("c_1", kv, kw); lex_one("C_1 c_", kv, kw); lex_one("ABCD abc", kv, n ? kw : nullptr); }); }
/* quoting */
static void trip(const S &name) { next_case(); static char b[4096]; REQUIRE(name.size() < 2000, "internal"); strcpy(b, name.c_str()); REQUIRE(lex_encode(b) == b, "lex_encode"); REQUIRE(strlen(b) == name.size(), "\"%s\": quoting changes the length", esc(name).c_str()); static const char q[] = {'\'', '"'}; for (char c : q) { S t = S("CONSOLE=") + c + b + c + " x"; Lex l = lex_create(guarded(t), KW); int k1 = lex_next(l), k2 = lex_next(l), k3 = lex_next(l); S got = lex_text(l); int k4 = lex_next(l); REQUIRE(k1 == LEX_STR && k2 == '=' && k3 == LEX_STR && k4 == LEX_STR && S(lex_text(l)) == "x", "\"%s\" quoted does not come back as one word", esc(name).c_str()); static char d[4096]; strcpy(d, got.c_str()); REQUIRE(lex_decode(d) == d, "lex_decode"); REQUIRE(d == name.substr(0, 1023), "\"%s\" comes back as \"%s\"", esc(name).c_str(), esc(d).c_str()); lex_destroy(l); } REQUIRE(lex_encode(nullptr) == nullptr && lex_decode(nullptr) == nullptr, "null"); }
SCENARIO(quote_trip, "C22", 0,0,0, 0,0,0, "every name of up to 6 (thorough: 7) characters over 11 special ones, every pair of the 125 transmittable 7-bit characters, and long names survive quoting and tokenizing between either quotes") { static const S AL = "a'\"\\# =\t-0,"; int x = pick(AL.size(), "first"); in_proc([&]{ S t(1, AL[x]); if (!x) trip(""); all(t, g_thorough ? 6 : 5, AL, [&]{ trip(t); }); for (int a = 1 + x; a < 128; a += AL.size()) for (int b = 1; b < 128; b++) if (a != 10 && a != 13 && b != 10 && b != 13) trip(S{(char)a, (char)b}); for (int n : {1022, 1023, 1024, 1900}) trip(S(n, AL[x])); }); }
/* splitting */
static bool sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static void split_one(const S &t) {
    next_case(); const char *w = t.c_str(); char *b = guarded(t), *p = nullptr, *word; char q; size_t i = 0; for (int n = 0;; n++) { q = 0; int rc = parse_string(b, &word, &p, &q); while (i < t.size() && sp((unsigned char)t[i])) i++;
        if (i >= t.size()) { REQUIRE(rc == 0, "\"%s\": word %d is found after the last", esc(w).c_str(), n); break; }
        char c = t[i]; S want; char wq = 0; if (c == '"' || c == '\'') { size_t j = i + 1; while (j < t.size() && !(t[j] == c && (j + 1 == t.size() || sp((unsigned char)t[j+1])))) j++; if (j >= t.size()) { REQUIRE(rc == -1, "\"%s\": an unterminated quote is accepted as \"%s\"", esc(w).c_str(), rc > 0 ? esc(word).c_str() : ""); break; } want = t.substr(i + 1, j - i - 1); wq = c; i = j + 1; } else { size_t j = i; while (j < t.size() && !sp((unsigned char)t[j])) j++; want = t.substr(i, j - i); i = j; }
        REQUIRE(rc == 1 && want == word, "\"%s\": word %d is \"%s\" (%d) instead of \"%s\"", esc(w).c_str(), n, rc > 0 ? esc(word).c_str() : "", rc, esc(want).c_str()); REQUIRE(q == wq, "\"%s\": word %d has the wrong quote", esc(w).c_str(), n); if (n > 20) fail("\"%s\": no end", esc(w).c_str()); } }
SCENARIO(split_words, "C22", 0,0,0, 0,0,0, "every text of up to 8 (thorough: 9) characters over 7 (letters, both quotes, blank, tab, percent) is split into its words and quoted words, an unterminated quote refused, nothing read beyond the end") { static const S AL = "ab'\" \t%"; int x = pick(7, "first"), y = pick(7, "second"); in_proc([&]{ S t = {AL[x], AL[y]}; if (!y) { split_one(S(1, AL[x])); if (!x) split_one(""); } all(t, g_thorough ? 7 : 6, AL, [&]{ split_one(t); }); }); }
/* substitution, concatenation, paths */
static char *box(size_t n) { static char *m; if (!m) { m = (char*)mmap(0, 8192 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m + 8192, 4096, PROT_NONE); } memset(m, 'Z', 8192); return m + 8192 - n; }
SCENARIO(substitute, "C22", 0,0,0, 0,0,0, "every format of up to 6 characters over 5, 5 substitutes, buffers of 1 to 12: the substituted text or its truncation, never beyond the buffer") { static const S AL = "%N&a."; int s = pick(5, "substitute"), x = pick(5, "first"), y = pick(5, "second"); in_proc([&]{ const char *sub[] = {"", "n", "%N", "xyz", nullptr}; S t = {AL[x], AL[y]}; auto one = [&](const S &f) { S want; for (size_t i = 0; i < f.size(); i++) if (f[i] == '%' && i + 1 < f.size() && f[i+1] == 'N') { if (sub[s]) want += sub[s]; i++; } else want += f[i]; for (size_t n = 1; n <= 12; n++) { next_case(); char *d = box(n); int rc = substitute_string(d, n, guarded(f), 'N', sub[s]); REQUIRE(memchr(d, 0, n), "\"%s\" into %zu bytes: not terminated", f.c_str(), n); if (want.size() < n) REQUIRE(rc == (int)want.size() && want == d, "\"%s\" becomes \"%s\" (%d) instead of \"%s\"", f.c_str(), d, rc, want.c_str()); else REQUIRE(rc == -1 && want.substr(0, n - 1) == d, "\"%s\" into %zu bytes becomes \"%s\" (%d) instead of the beginning of \"%s\"", f.c_str(), n, d, rc, want.c_str()); REQUIRE(d[-1] == 'Z', "bytes before the buffer are overwritten"); } }; if (!y) { one(S(1, AL[x])); if (!x) one(""); } all(t, 4, AL, [&]{ one(t); }); }); }
SCENARIO(append_text, "C22", 0,0,0, 0,0,0, "appending texts of 0 to 12 characters to texts of 0 to 12 in buffers of 0 to 16, formats with several values: the concatenation or its truncation and -1, never beyond the buffer; empty strings recognised") { int n = pick(17, "size"); in_proc([&]{ for (int a = 0; a <= 12; a++) for (int b = 0; b <= 12; b++) for (int full = 0; full < 2; full++) { if (a >= n && !full) continue; next_case(); char *d = box(n ? n : 1); if (a < n) { memset(d, 'a', a); d[a] = 0; } else memset(d, 'a', n); S old = n ? S(d, strnlen(d, n)) : S(), add = S(b, 'b'); int rc = append_format_string(d, n, "%s", add.c_str()); if (!n) { REQUIRE(rc == 0 && *d == 'Z', "an empty buffer is written to"); continue; } REQUIRE(memchr(d, 0, n), "not terminated"); if ((int)old.size() >= n - 1) { REQUIRE(rc == -1 || (b == 0 && rc == n - 1), "appending to a full buffer returns %d", rc); REQUIRE(S(d) == old.substr(0, n - 1), "a full buffer becomes %s", d); } else if ((int)(old.size() + b) < n) REQUIRE(rc == (int)old.size() + b && old + add == d, "%d and %d in %d: \"%s\" (%d)", a, b, n, d, rc); else REQUIRE(rc == -1 && S(d) == (old + add).substr(0, n - 1), "%d and %d in %d: truncated to \"%s\" (%d)", a, b, n, d, rc); } S t; all(t, 3, " \t\na\v\xa0", [&]{ next_case(); bool e = true; for (unsigned char c : t) if (!sp(c)) e = false; REQUIRE(is_empty_string(guarded(t)) == e, "\"%s\" is considered %sempty", esc(t).c_str(), e ? "not " : ""); }); REQUIRE(is_empty_string(nullptr) == -1, "null"); char *f = create_format_string("%s-%d-%s", S(n * 70, 'x').c_str(), n, "end"); S w = fmt("%s-%d-end", S(n * 70, 'x').c_str(), n); REQUIRE(w.substr(0, 1023) == f, "create_format_string"); destroy_string(f); char *r = create_string("one"); replace_string(&r, w.c_str()); REQUIRE(w == r, "replace_string"); destroy_string(r); destroy_string(nullptr); REQUIRE(create_string(nullptr) == nullptr, "null"); REQUIRE(mem_live() == 0, "%zu heap blocks leak", mem_live()); }); }
SCENARIO(dir_names, "C22", 0,0,0, 0,0,0, "every path of up to 7 characters over slash, dot and letter: its directory's name, in buffers of any size") { int x = pick(3, "first"), y = pick(3, "second"); static const S AL = "/a."; in_proc([&]{ S t = {AL[x], AL[y]}; auto one = [&](const S &f) { S w = f; while (w.size() > 1 && w.back() == '/') w.pop_back(); size_t k = w.rfind('/'); if (k == S::npos) w = "."; else { w = w.substr(0, k); while (w.size() > 1 && w.back() == '/') w.pop_back(); if (w.empty()) w = "/"; } if (f.find_first_not_of('/') == S::npos && !f.empty()) w = "/"; for (size_t n = 1; n <= 9; n++) { next_case(); char *d = box(n); char *r = get_dir_name(guarded(f), d, n); if (w.size() < n) REQUIRE(r == d && w == d, "\"%s\": directory \"%s\" instead of \"%s\"", f.c_str(), r ? d : "(none)", w.c_str()); else REQUIRE(!r, "\"%s\": \"%s\" in %zu bytes", f.c_str(), w.c_str(), n); } }; if (!y) one(S(1, AL[x])); all(t, 5, AL, [&]{ one(t); }); }); }
