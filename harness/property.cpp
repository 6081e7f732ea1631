// Hierarchical property language: scanning, parsing, printing, normalisation; scanned token structures.
#include "common.hpp"
#include <complex>
#include <Balau/Type/FromString.hpp>
#include <Balau/Resource/ByteReadResource.hpp>
#include <Balau/Resource/ByteWriteResource.hpp>
#include <Balau/Resource/Utf8To32ReadResource.hpp>
#include <Balau/Resource/Utf32To8WriteResource.hpp>
#include <Balau/Lang/Property/PropertyParserService.hpp>
#include <Balau/Lang/Property/Util/PropertyAstToString.hpp>
#include <Balau/Resource/StringUri.hpp>
using namespace Balau;
using namespace Balau::Lang;
using namespace Balau::Lang::Property;
#ifndef PL
#define PL 5
#endif
#ifndef PB
#define PB 4
#endif
#ifndef TKINDS
#define TKINDS 4
#endif
#ifndef TK
#define TK 4
#endif
struct Node { char kind; int depth; std::string name, value; };
static bool same(const std::vector<Node>& a, const std::vector<Node>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i].kind != b[i].kind || a[i].depth != b[i].depth || a[i].name != b[i].name || a[i].value != b[i].value) return false; return true; }
struct Flat : PropertyVisitor { std::vector<Node> out; int depth = 0;
  void visit(Payload& p, const AST::Properties& o) override { for (auto& n : o.getNodes()) n->visit(p, *this); }
  void visit(Payload&, const AST::ValueProperty& o) override { out.push_back({'V', depth, std::string(o.getName()), std::string(o.getValue())}); }
  void visit(Payload& p, const AST::CompositeProperty& o) override { out.push_back({'C', depth, std::string(o.getName()), ""}); depth++; for (auto& n : o.getNodes()) n->visit(p, *this); depth--; }
  void visit(Payload&, const AST::IncludePropertyNode& o) override { out.push_back({'I', depth, "", std::string(o.getText())}); }
  void visit(Payload&, const AST::CommentPropertyNode& o) override { out.push_back({'#', depth, "", std::string(o.getText())}); }
  void visit(Payload&, const AST::EmptyLinePropertyNode&) override { out.push_back({'E', depth, "", ""}); } };
static std::vector<Node> flatten(const AST::Properties& p) { Flat f; Payload pl; f.visit(pl, p); return f.out; }
// the grammar of the manual (Hierarchical format, Grammar)
enum Outcome { Good, Bad, Open };
struct Ref { std::string t; size_t i = 0; std::vector<Node> out; Outcome state = Good;
  bool eof() const { return i == t.size(); }
  bool brk() const { return !eof() && (t[i] == '\n' || t[i] == '\r'); }
  bool blank() const { return !eof() && t[i] == ' '; }
  void skipBreak() { char c = t[i++]; if (brk() && t[i] != c) i++; }
  void skipBlanks() { while (blank()) i++; }
  // an escape sequence; blanks following a line continuation belong to it
  bool escape() { i++; if (eof()) { state = Open; return false; } if (brk()) { skipBreak(); skipBlanks(); } else { i++; while (!eof() && (t[i] & 0xC0) == 0x80) i++; } return true; }
  void nodes(int depth) {
    for (;;) { skipBlanks(); if (eof()) { if (depth) state = Bad; return; } char c = t[i];
      if (brk()) { skipBreak(); out.push_back({'E', depth, "", ""}); continue; }
      if (c == '#' || c == '!' || c == '@') { size_t s = ++i; while (!eof() && !brk()) i++; std::string x = t.substr(s, i - s); if (c == '@' && (x.empty() || x.back() == '\\')) { state = Open; return; } if (!eof()) skipBreak(); out.push_back({c == '@' ? 'I' : '#', depth, "", x}); continue; }
      if (c == '}' && depth) { i++; if (blank()) state = Open; else if (brk()) skipBreak(); else if (!eof()) state = Bad; return; }
      if (c == '{' || c == '}' || c == ':' || c == '=') { state = Bad; return; }
      property(depth); if (state != Good) return; } }
  void property(int depth) {
    size_t s = i; bool cont = false;
    while (!eof()) { char c = t[i]; if (c == '@') { state = Open; return; } if (c == '\\') { bool first = i == s; if (!escape()) return; if (first && (t[s + 1] == '\n' || t[s + 1] == '\r')) cont = true; } else if (c == '{' || c == '}' || c == ':' || c == '=' || c == ' ' || brk()) break; else { if (cont && (c == '#' || c == '!') && i > 0) { state = Open; return; } i++; } if (cont && t[i - 1] != '\n' && t[i - 1] != '\r' && t[i - 1] != ' ') cont = false; }
    if (cont) { state = Open; return; } // a name that is empty after removing line continuations
    std::string name = t.substr(s, i - s); size_t k = i; skipBlanks(); if (!eof() && (t[i] == '=' || t[i] == ':')) { i++; skipBlanks(); } bool sep = i > k;
    if (eof() || brk()) { if (brk()) skipBreak(); out.push_back({'V', depth, name, ""}); return; }
    if (!sep) { state = Open; return; }
    if (t[i] == '{') { i++; if (!brk()) { state = Bad; return; } skipBreak(); out.push_back({'C', depth, name, ""}); nodes(depth + 1); return; }
    s = i; while (!eof() && !brk()) { if (t[i] == '@') { state = Open; return; } if (t[i] == '\\') { if (!escape()) return; } else i++; }
    out.push_back({'V', depth, name, t.substr(s, i - s)}); if (brk()) skipBreak(); } };
static std::string refNormal(std::string_view t) { std::string r; size_t i = 0; while (i < t.size()) { if (t[i] != '\\') { r += t[i++]; continue; } i++; if (i == t.size()) break; if (t[i] != '\n' && t[i] != '\r') { r += t[i++]; continue; } char c = t[i++]; if (i < t.size() && (t[i] == '\n' || t[i] == '\r') && t[i] != c) i++; while (i < t.size() && (t[i] == ' ' || t[i] == '\t')) i++; } return r; }
static void parsing(const std::string& text) {
  Ref r; r.t = text; r.nodes(0);
  std::vector<Node> got; bool threw = false; std::string printed;
  try { AST::Properties p = PropertyParserService::parse(Resource::StringUri(text)); got = flatten(p); vp_assert(p.getText() == text, "the parsed properties own the text"); printed = AST::toString(p); } catch (const Exception::SyntaxErrorException&) { threw = true; }
  vp_observe("threw", threw); vp_observe("nodes", got.size());
  if (r.state == Open) { vp_reach("unspecified"); return; }
  vp_assert(threw == (r.state == Bad), r.state == Bad ? "text outside the grammar is refused" : "text of the grammar is accepted"); if (threw) { vp_reach("refused"); return; }
  vp_assert(same(got, r.out), "the parsed properties are those of the text"); for (auto& n : got) { if (n.kind == 'C') vp_reach("composite"); if (n.kind == 'V' && n.value.size() > 1) vp_reach("value"); if (n.kind == '#') vp_reach("comment"); }
  if (printed.empty() && got.empty()) return;
  std::vector<Node> again; try { AST::Properties p = PropertyParserService::parse(Resource::StringUri(printed)); again = flatten(p); } catch (const Exception::SyntaxErrorException&) { vp_fail("printed properties can be parsed"); }
  for (auto* v : {&got, &again}) for (auto& n : *v) if (n.kind == 'V' || n.kind == 'C') { n.name = refNormal(n.name); n.value = refNormal(n.value); }
  vp_assert(same(got, again), "printing and parsing again gives the same properties"); }
extern "C" void prop_lines() { SymBytes s(symLen(PL, "n"), "text"); allOf(s, "a =#\\\n"); parsing(s.str()); }
extern "C" void prop_breaks() { static const char* pre[] = {"", "#c", "a=", "a={"}; SymBytes s(symLen(1, PL - 1, "n"), "text"); allOf(s, "a \\\r\n"); parsing(std::string(pre[vp_choose(4, "start")]) + s.str()); }
extern "C" void prop_special() { SymBytes s(symLen(PL, "n"), "text"); allOf(s, "a:!@{\n"); parsing(s.str()); }
extern "C" void prop_block() { static const char* tail[] = {"", "}", "}\n", "\n}\nb=c"}; SymBytes s(symLen(PB, "n"), "text"); allOf(s, "a ={}\n"); parsing("p {\n" + s.str() + tail[vp_choose(4, "end")]); }
extern "C" void prop_escapes() { SymBytes s(symLen(PB, "n"), "text"); allOf(s, "a\\#:={} "); parsing("k" + s.str() + "\nz=y\n"); }
extern "C" void prop_bytes() { // any bytes: no access outside the text, text that is not UTF-8 is refused
  SymBytes s(symLen(1, 3, "n"), "text"); bool threw = false; try { AST::Properties p = PropertyParserService::parse(Resource::StringUri(s.str())); std::string out = AST::toString(p); vp_observe("out", out.size()); } catch (const Exception::SyntaxErrorException&) { threw = true; }
  int high = 0; for (size_t i = 0; i < s.n; i++) high |= (unsigned char)s.p[i] >= 0x80; if (high) { std::string t = s.str(); size_t i = 0; bool ok = true; while (i < t.size() && ok) { unsigned char b = t[i]; size_t k = b < 0x80 ? 1 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : 4; if ((b >= 0x80 && b < 0xC2) || b > 0xF4 || i + k > t.size()) { ok = false; break; } for (size_t j = 1; j < k; j++) if (((unsigned char)t[i + j] & 0xC0) != 0x80) ok = false; if (ok && k == 3 && ((b == 0xE0 && (unsigned char)t[i + 1] < 0xA0) || (b == 0xED && (unsigned char)t[i + 1] > 0x9F))) ok = false; i += k; } if (!ok) { vp_assert(threw, "text that is not UTF-8 is refused"); vp_reach("malformed"); } else vp_reach("wide"); } }
extern "C" void prop_wide() { // a property whose name and value are single code points
  char32_t a = vp_value<char32_t>("name"), b = vp_value<char32_t>("value"); vp_assume(isScalar(a) && isScalar(b) && a > 0x3000 && b > 0x3000); unsigned char n[4], v[4]; size_t nn = refEncode(a, n), vn = refEncode(b, v); std::string N((char*)n, nn), V((char*)v, vn), text = N + "=" + V + "\n"; AST::Properties p = PropertyParserService::parse(Resource::StringUri(text)); auto f = flatten(p); vp_assert(f.size() == 1 && f[0].kind == 'V' && sameText(f[0].name, N) && sameText(f[0].value, V), "names and values of any characters are kept"); vp_reach("done"); vp_observe("a", a); }
extern "C" void prop_normalise() { SymBytes s(symLen(PL + 1, "n"), "text"); allOf(s, "a=\\ \r\n"); for (size_t i = 0; i < s.n; i++) { bool brk = s.p[i] == '\r' || s.p[i] == '\n'; if (s.p[i] == '\\') { i++; if (i + 1 < s.n && (s.p[i] == '\r' || s.p[i] == '\n') && (s.p[i + 1] == '\r' || s.p[i + 1] == '\n') && s.p[i] != s.p[i + 1]) i++; } else if (brk) { vp_reach("line break in the text"); return; } } std::string got = AST::PropertyNode::normalise(s.view()); vp_assert(got == refNormal(s.view()), "normalising removes escapes and line continuations with their indentation"); observeStr("normal", got); if (got.size() + 2 < s.n) vp_reach("shorter"); }
extern "C" void prop_normalise_wide() { size_t n = symLen(1, 2, "n"); SymText t(n, "text"); for (auto c : t.cp) vp_assume(c != '\\'); bool esc = vp_choose(2, "escaped"); std::string in; for (size_t i = 0; i < n; i++) { if (esc) { vp_assume(t.cp[i] != '\r' && t.cp[i] != '\n'); in += '\\'; } in.append(t.s, t.at[i], t.at[i + 1] - t.at[i]); } std::string got = AST::PropertyNode::normalise(in); vp_assert(sameText(got, t.s), "normalising keeps characters and drops the escaping"); vp_reach("done"); vp_observe("n", got.size()); }
extern "C" void prop_equal() { // equality of parsed properties
  static const char* texts[] = {"a = b\n", "a = c\n", "a {\n\tb = c\n}\n", "a {\n\tb = d\n}\n", "a {\n\t#b\n}\n", "# a\n", "@a\n", "\n"}; size_t i = vp_choose(8, "first"), j = vp_choose(8, "second"); AST::Properties p = PropertyParserService::parse(Resource::StringUri(texts[i])), q = PropertyParserService::parse(Resource::StringUri(texts[j])); const AST::PropertyNode &a = *p.getNodes()[0], &b = *q.getNodes()[0]; vp_assert((a == b) == (i == j), "properties are equal when their content is"); vp_assert((a != b) == (i != j), "properties differ when their content does"); vp_assert((static_cast<const AST::PropertyNode&>(p) == q) == (i == j), "documents are equal when their content is"); vp_reach(i == j ? "equal" : "different"); vp_observe("equal", a == b); }
// scanned token structures
enum class Tok { Text, Blank, LineBreak, CommentLine, CommentBlock, EndOfFile };
struct Model { std::string text; std::vector<Tok> tokens; std::vector<unsigned> at; std::vector<CodeSpan> spans; ScannedTokens<Tok> make() const { return ScannedTokens<Tok>(nullptr, std::string(text), std::vector<Tok>(tokens), std::vector<unsigned>(at)); }
  std::string piece(size_t i) const { return text.substr(at[i], (i + 1 < at.size() ? at[i + 1] : text.size()) - at[i]); } };
static Model modelTokens(size_t n, bool plain) {
  static const char* t[] = {"x", "yy", " ", "\n", "\r\n", "//\n", "/*\n\n*/", "/**/\r", "/*c*/"}; static const Tok k[] = {Tok::Text, Tok::Text, Tok::Blank, Tok::LineBreak, Tok::LineBreak, Tok::CommentLine, Tok::CommentBlock, Tok::CommentBlock, Tok::CommentBlock}; static const int plainSet[] = {1, 2, 3, 6, 5};
  Model m; unsigned line = 1, col = 1; for (size_t i = 0; i < n; i++) { size_t c = plain ? plainSet[vp_choose(TKINDS, "token")] : vp_choose(9, "token"); std::string s = t[c]; m.at.push_back(m.text.size()); m.tokens.push_back(k[c]); m.text += s; unsigned l0 = line, c0 = col; for (size_t j = 0; j < s.size(); j++) { if (s[j] == '\n' || (s[j] == '\r' && !(j + 1 < s.size() && s[j + 1] == '\n'))) { line++; col = 1; } else col++; } m.spans.push_back(CodeSpan(l0, c0, line, col)); }
  m.at.push_back(m.text.size()); m.tokens.push_back(Tok::EndOfFile); m.spans.push_back(CodeSpan(line, col, line, col)); return m; }
extern "C" void tok_random() { Model m = modelTokens(symLen(TK - 1, "n"), false); RandomAccessScannedTokens<Tok> r(m.make()); const auto& s = r.getCodeSpans(); vp_assert(s.size() == m.spans.size(), "every token has a code span"); for (size_t i = 0; i < s.size(); i++) { vp_assert(s[i] == m.spans[i], "the code span of a token is where its text is"); vp_assert((RandomAccessScannedTokens<Tok>::determineCodeSpan(r.getScannedTokens(), i) == m.spans[i]), "the code span of a single token is where its text is"); }
  bool threw = false; try { RandomAccessScannedTokens<Tok>::determineCodeSpan(r.getScannedTokens(), s.size()); } catch (const Exception::IndexOutOfRangeException&) { threw = true; } vp_assert(threw, "an index past the tokens is refused"); vp_assert(r.moveTextOut() == m.text, "the text can be moved out"); vp_reach("done"); vp_observe("n", s.size()); }
static bool skips(WhitespaceMode w, Tok t) { bool b = w == WhitespaceMode::ConsumeWhitespaceAndComments || w == WhitespaceMode::ConsumeWhitespace || w == WhitespaceMode::ConsumeBlanksAndComments || w == WhitespaceMode::ConsumeBlanks, l = w == WhitespaceMode::ConsumeWhitespaceAndComments || w == WhitespaceMode::ConsumeWhitespace || w == WhitespaceMode::ConsumeLineBreaksAndComments || w == WhitespaceMode::ConsumeLineBreaks, c = w == WhitespaceMode::ConsumeWhitespaceAndComments || w == WhitespaceMode::ConsumeBlanksAndComments || w == WhitespaceMode::ConsumeLineBreaksAndComments || w == WhitespaceMode::ConsumeComments; return (t == Tok::Blank && b) || (t == Tok::LineBreak && l) || (t == Tok::CommentLine && c); }
static const WhitespaceMode modes[] = {WhitespaceMode::DoNotConsume, WhitespaceMode::ConsumeWhitespaceAndComments, WhitespaceMode::ConsumeBlanks, WhitespaceMode::ConsumeLineBreaks, WhitespaceMode::ConsumeComments, WhitespaceMode::ConsumeWhitespace, WhitespaceMode::ConsumeBlanksAndComments, WhitespaceMode::ConsumeLineBreaksAndComments};
extern "C" void tok_modes() { // forwards to the end, backwards to the start, and to every marker in every whitespace mode
  Model m = modelTokens(symLen(1, TK - 1, "n"), false); ScannerApiScannedTokens<Tok> s(m.make()); WhitespaceMode w = modes[vp_choose(8, "mode")]; s.pushWhitespaceMode(w); std::vector<size_t> kept; for (size_t i = 0; i < m.tokens.size(); i++) if (!skips(w, m.tokens[i])) kept.push_back(i);
  auto check = [&](size_t i) { auto g = s.get(); vp_assert(g.token == m.tokens[i] && g.text == m.piece(i), "the current token is the next one not skipped"); vp_assert(g.codeSpan == m.spans[i], "the current token has its code span"); };
  std::vector<ScannerApiScannedTokens<Tok>::Marker> marks; for (size_t k : kept) { check(k); marks.push_back(s.mark()); s.consume(); } check(kept.back()); for (size_t k = kept.size() - 1; k-- > 0;) { s.putBack(); check(kept[k]); } s.putBack(); check(kept[0]);
  for (size_t k = 0; k < kept.size(); k++) { while (s.get().token != Tok::EndOfFile) s.consume(); s.putBack(marks[k]); check(kept[k]); } s.popWhitespaceMode(); vp_assert(s.get().token == Tok::EndOfFile, "the whitespace mode before the last one is restored"); vp_reach("done"); vp_observe("kept", kept.size()); }
extern "C" void tok_scanner() { // get, consume, put back, mark, reset in any order
  Model m = modelTokens(symLen(1, TK - 1, "n"), true); ScannerApiScannedTokens<Tok> s(m.make()); 
  WhitespaceMode w = modes[vp_choose(2, "mode")]; s.pushWhitespaceMode(w); vp_assert(s.size() == m.tokens.size(), "every token is counted"); size_t i = 0, marked = 0; auto mk = s.mark();
  auto settle = [&] { while (skips(w, m.tokens[i])) i++; };
  for (int step = 0; step < TK; step++) { settle(); auto g = s.get(); vp_assert(g.token == m.tokens[i], "the current token is the next one not skipped"); vp_assert(g.text == m.piece(i), "the current token has its text"); vp_assert(g.codeSpan == m.spans[i], "the current token has its code span"); vp_assert(s.getCurrentCodeSpan() == m.spans[i], "the current code span is that of the current token"); vp_assert(s.currentIsBlank() == (m.tokens[i] == Tok::Blank) && s.currentIsLineBreak() == (m.tokens[i] == Tok::LineBreak) && s.currentIsWhitespace() == (m.tokens[i] == Tok::Blank || m.tokens[i] == Tok::LineBreak), "the current token is classified");
    switch (vp_choose(step + 1 < TK ? 6 : 1, "operation")) { case 0: s.consume(); if (i + 1 < m.tokens.size()) i++; break; case 1: { s.putBack(); size_t k = i; while (k > 0 && skips(w, m.tokens[k - 1])) k--; if (k > 0) { i = k - 1; vp_reach("put back"); } break; } case 2: mk = s.mark(); marked = i; break; case 3: if (marked <= i) { s.putBack(mk); i = marked; vp_reach("marker"); } else { bool threw = false; try { s.putBack(mk); } catch (const Exception::IndexOutOfRangeException&) { threw = true; } vp_assert(threw, "a marker ahead of the current token is refused"); } break; case 4: s.reset(); s.pushWhitespaceMode(w); i = 0; vp_reach("reset"); break; default: { bool threw = false; try { s.expect(Tok::Text, "text"); } catch (const Exception::SyntaxErrorException&) { threw = true; } vp_assert(threw == (m.tokens[i] != Tok::Text), "an unexpected token is refused"); if (!threw) i++; break; } } }
  vp_assert(s.moveTextOut() == m.text, "the text can be moved out"); vp_reach("done"); vp_observe("i", i); }
extern "C" void tok_iterate() { Model m = modelTokens(symLen(TK - 2, "n"), false); auto st = m.make(); IterativeScannedTokens<Tok> it(st); size_t i = 0; for (auto k = it.begin(); k != it.end(); ++k, i++) { vp_assert((*k).token() == m.tokens[i], "iteration gives every token in order"); vp_assert((*k).startOffset() == m.at[i], "iteration gives every start offset in order"); } vp_assert(i == m.tokens.size() && it.size() == i, "iteration visits every token");
  const auto& c = it; i = 0; for (auto k = c.begin(); k != c.end(); ++k, i++) vp_assert((*k).token() == m.tokens[i] && (*k).startOffset() == m.at[i], "constant iteration gives every token in order"); vp_assert(i == m.tokens.size(), "constant iteration visits every token"); vp_assert(c.getTokens() == m.tokens && c.getStartOffsets() == m.at, "the token vectors are available"); auto k = it.begin(); (*k).token() = Tok::Blank; (*k).startOffset() = 7; vp_assert(it.getToken(0) == Tok::Blank && it.getStartOffset(0) == 7, "elements can be changed through an iterator"); vp_reach("done"); vp_observe("n", i); }
extern "C" void tok_expect() { // error reports of unexpected tokens
  Model m = modelTokens(symLen(1, 2, "n"), false); ScannerApiScannedTokens<Tok> s(m.make()); size_t max = vp_choose(3, "most errors"), had = vp_choose(3, "earlier errors"), calls = 0; std::vector<std::string> errors(had); bool several = vp_choose(2, "several");
  bool ok, want; if (several) { std::function<std::string(const std::vector<Tok>&, const CodeSpan&, size_t)> f = [&](const std::vector<Tok>&, const CodeSpan& c, size_t n) { calls++; vp_assert(c == m.spans[0] && n == had, "the report gets the code span and the number of errors"); return "unexpected"; }; std::vector<Tok> set{Tok::Text, Tok::Blank}; want = m.tokens[0] == Tok::Text || m.tokens[0] == Tok::Blank; ok = s.expect(set, errors, max, f); }
  else { std::function<std::string(const Tok&, const CodeSpan&, size_t)> f = [&](const Tok&, const CodeSpan& c, size_t n) { calls++; vp_assert(c == m.spans[0] && n == had, "the report gets the code span and the number of errors"); return "unexpected"; }; want = m.tokens[0] == Tok::LineBreak; ok = s.expect(Tok::LineBreak, errors, max, f); }
  vp_assert(ok == want, "the expected tokens are accepted and others are not"); vp_assert(errors.size() == had + (!want && had < max), "an unexpected token is reported once unless there are too many errors"); vp_assert(calls <= 1, "an error is produced once"); vp_assert(s.get().token == m.tokens[want ? 1 : 0], "an accepted token is consumed"); vp_reach(want ? "accepted" : "refused"); vp_observe("errors", errors.size()); }
extern "C" void prop_normalise_bytes() { // bytes that are not UTF-8 stay within bounds
  SymBytes s(symLen(1, 3, "n"), "text"); std::string got = AST::PropertyNode::normalise(s.view()); vp_assert(got.size() <= s.n, "normalising never lengthens a text"); vp_reach(got.size() == s.n ? "same length" : "shorter"); vp_observe("n", got.size()); }
