// URI parsing, path normalisation, URL decoding.
#include "common.hpp"
#include <Balau/Resource/Uri.hpp>
#include <Balau/Resource/UriComponents.hpp>
#include <Balau/Type/FromString.hpp>
#include <Balau/Network/Utilities/UrlDecode.hpp>
using namespace Balau;
using Resource::UriComponents;
#ifndef UL
#define UL 7
#endif
#ifndef NP
#define NP 8
#endif
#ifndef DL
#define DL 5
#endif
static int has(std::string_view s, const char* set) { for (char c : s) for (const char* p = set; *p; p++) if (c == *p) return 1; return 0; }
struct RefUri { int ok = 0; std::string scheme, user, host, path, query, fragment; int hasUser = 0, hasHost = 0, hasPort = 0, hasQuery = 0, hasFragment = 0; unsigned port = 0; };
// parses the texts every reader of RFC 3986 agrees on; ok == 0 leaves the others to the general assertions
static RefUri refUri(const std::string& u) {
  RefUri r; size_t i = 0; while (i < u.size() && u[i] != ':') i++; if (i == 0 || i == u.size()) return r; r.scheme = u.substr(0, i); for (size_t k = 0; k < i; k++) { char c = u[k]; int al = ((c | 32) >= 'a' && (c | 32) <= 'z'); int ot = (c >= '0' && c <= '9') || c == '+' || c == '-' || c == '.'; if (!(al || (k && ot))) return r; }
  std::string rest = u.substr(i + 1); size_t h = 0; while (h < rest.size() && rest[h] != '#') h++; if (h < rest.size()) { r.hasFragment = 1; r.fragment = rest.substr(h + 1); rest = rest.substr(0, h); } size_t q = 0; while (q < rest.size() && rest[q] != '?') q++; if (q < rest.size()) { r.hasQuery = 1; r.query = rest.substr(q + 1); rest = rest.substr(0, q); }
  if (rest.size() >= 2 && rest[0] == '/' && rest[1] == '/') { size_t e = 2; while (e < rest.size() && rest[e] != '/') e++; std::string a = rest.substr(2, e - 2); r.path = rest.substr(e); size_t t = 0; while (t < a.size() && a[t] != '@') t++; if (t < a.size()) { r.hasUser = 1; r.user = a.substr(0, t); a = a.substr(t + 1); if (r.user.empty() || has(r.user, ":[]")) return r; } if (a.empty() || has(a, "@")) return r;
    size_t p = 0; if (a[0] == '[') { while (p < a.size() && a[p] != ']') p++; if (p == a.size() || p == 1) return r; p++; if (p < a.size() && a[p] != ':') return r; } else while (p < a.size() && a[p] != ':') p++;
    r.host = a.substr(0, p); r.hasHost = 1; if (r.host.empty() || (r.host[0] != '[' && has(r.host, "[]")) || (r.host[0] == '[' && has(r.host.substr(1), "["))) return r; if (p < a.size()) { std::string n = a.substr(p + 1); if (n.empty() || n.size() > 5) return r; for (char c : n) { if (c < '0' || c > '9') return r; r.port = r.port * 10 + (c - '0'); } if (r.port > 65535) return r; r.hasPort = 1; } }
  else r.path = rest; r.ok = 1; return r; }
static void uriProps(const std::string& u) {
  RefUri r = refUri(u); bool threw = false; std::string scheme, user, host, path, query, fragment, pqf; int hu = 0, hh = 0, hp = 0, hq = 0, hf = 0; unsigned port = 0;
  try { UriComponents c(u); scheme = std::string(c.scheme()); user = std::string(c.userInfo()); host = std::string(c.host()); path = std::string(c.path()); query = std::string(c.query()); fragment = std::string(c.fragment()); pqf = std::string(c.pathQueryFragment()); hu = c.hasUserInfo(); hh = c.hasHost(); hp = c.hasPort(); hq = c.hasQuery(); hf = c.hasFragment(); port = c.port(); vp_assert(c.hasAuthority() == c.hasHost() && c.getUri() == u, "the URI text is kept"); } catch (const Exception::InvalidUriException&) { threw = true; }
  vp_observe("threw", threw); if (threw) { vp_assert(!r.ok, "a well-formed URI is accepted"); vp_reach("refused"); return; }
  // the components and their delimiters are the URI
  size_t at = scheme.size(); vp_assert(u.compare(0, at, scheme) == 0 && at < u.size() && u[at] == ':' && at > 0, "the scheme ends at the first colon"); at++; vp_assert(!has(scheme, ":/?#@[]"), "the scheme holds no delimiter");
  if (hh) { vp_assert(u.compare(at, 2, "//") == 0, "the authority follows a double slash"); at += 2; if (hu) { vp_assert(u.compare(at, user.size(), user) == 0 && u[at + user.size()] == '@', "the user information ends with an at sign"); at += user.size() + 1; } vp_assert(u.compare(at, host.size(), host) == 0, "the host is part of the URI"); at += host.size(); vp_assert((!hu && !hp) || host.size(), "user information and port belong to a host");
    if (hp) { vp_assert(at < u.size() && u[at] == ':', "the port follows a colon"); at++; unsigned long v = 0; size_t d = 0; while (at + d < u.size() && u[at + d] >= '0' && u[at + d] <= '9') { v = v * 10 + (u[at + d] - '0'); d++; } vp_assert(d > 0 && v == port && v <= 65535, "the port is the number written"); at += d; } else vp_assert(port == 0, "no port is reported as zero"); }
  else { vp_assert(!hu && !hp, "user information and port need a host"); if (u.compare(at, std::string::npos, "//") == 0) at += 2; }
  vp_assert(u.compare(at, std::string::npos, pqf) == 0, "path, query and fragment are the rest of the URI"); vp_assert(u.compare(at, path.size(), path) == 0, "the path follows the authority"); at += path.size(); vp_assert(!has(path, "?#"), "the path holds no query or fragment");
  if (hq) { vp_assert(at < u.size() && u[at] == '?' && u.compare(at + 1, query.size(), query) == 0, "the query follows a question mark"); at += 1 + query.size(); vp_assert(!has(query, "#"), "the query holds no fragment"); } else vp_assert(query.empty(), "no query");
  if (hf) { vp_assert(at < u.size() && u[at] == '#' && u.compare(at + 1, fragment.size(), fragment) == 0, "the fragment follows a number sign"); at += 1 + fragment.size(); } else vp_assert(fragment.empty(), "no fragment");
  vp_assert(at == u.size(), "the components cover the whole URI"); vp_assert(hh || u.compare(scheme.size() + 1, 2, "//") != 0 || u.size() == scheme.size() + 3, "text after a double slash is an authority"); vp_reach("parsed"); if (hp) vp_reach("port"); if (hu) vp_reach("user");
  if (r.ok) { vp_assert(scheme == r.scheme && user == r.user && host == r.host && path == r.path && query == r.query && fragment == r.fragment && port == r.port, "the components are those of the generic URI syntax"); vp_assert(hu == r.hasUser && hh == r.hasHost && hp == r.hasPort && hq == r.hasQuery && hf == r.hasFragment, "the component presence is that of the generic URI syntax"); vp_reach("well-formed"); } }
extern "C" void uri_bytes() { SymBytes s(symLen(UL - 2, "n"), "uri"); uriProps(s.str()); }
extern "C" void uri_path() { SymBytes s(symLen(UL, "n"), "rest"); allOf(s, "a/?#:@"); uriProps("s:" + s.str()); }
extern "C" void uri_authority() { SymBytes s(symLen(UL, "n"), "rest"); allOf(s, "a1:/?#@"); uriProps("s://" + s.str()); }
extern "C" void uri_host() { SymBytes s(symLen(UL, "n"), "rest"); allOf(s, "a1:/[]@"); uriProps("s://" + s.str()); }
extern "C" void uri_port() { static const char* tail[] = {"", "/p", "?q", "#f"}; SymBytes s(symLen(1, 4, "n"), "port"); for (size_t i = 0; i < s.n; i++) vp_assume((unsigned char)s.p[i] < 128 && s.p[i] != '/' && s.p[i] != '?' && s.p[i] != '#' && s.p[i] != '@'); const char* before = vp_choose(2, "digits before") ? "6" : ""; uriProps(std::string("s://h:") + before + s.str() + tail[vp_choose(4, "tail")]); }
// path normalisation
static std::string refNorm(std::string_view p) { std::vector<std::string> st; size_t i = 0; while (i < p.size()) { if (p[i] == '/') { i++; continue; } size_t e = i; while (e < p.size() && p[e] != '/') e++; std::string c(p.substr(i, e - i)); i = e; if (c == ".") continue; if (c == ".." && st.size() && st.back() != "..") st.pop_back(); else st.push_back(c); } std::string r = p.size() && p[0] == '/' ? "/" : ""; for (size_t k = 0; k < st.size(); k++) { if (k) r += '/'; r += st[k]; } return r; }
extern "C" void uri_normalize() { SymBytes s(symLen(NP, "n"), "path"); allOf(s, "a./"); std::string got = UriComponents::normalizePath(s.view()); vp_assert(got == refNorm(s.view()), "normalisation resolves . and .. and removes surplus slashes"); vp_assert(UriComponents::normalizePath(got) == got, "normalisation is idempotent"); observeStr("norm", got); if (got.size() < s.n) vp_reach("shorter"); }
// URL decoding
static int hexv(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
static int wellFormed8(const std::string& s) { for (size_t i = 0; i < s.size();) { unsigned char b = s[i]; size_t k = b < 0x80 ? 1 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : 4; if ((b >= 0x80 && b < 0xC2) || b > 0xF4 || i + k > s.size()) return 0; char32_t c = k == 1 ? b : b & (0xFF >> (k + 1)); for (size_t j = 1; j < k; j++) { unsigned char x = s[i + j]; if ((x & 0xC0) != 0x80) return 0; c = c << 6 | (x & 63); } unsigned char e[4]; if (!isScalar(c) || refEncode(c, e) != k) return 0; i += k; } return 1; }
static void decodeProps(std::string_view in) {
  bool validate = vp_choose(2, "validate"), thr = vp_choose(2, "throw"); std::string want; bool bad = false; size_t i = 0;
  while (i < in.size()) { if (in[i] == '+') { want += ' '; i++; } else if (in[i] != '%') want += in[i++]; else { std::string run; while (i < in.size() && in[i] == '%') { if (i + 2 >= in.size()) { bad = true; i = in.size(); break; } int h = hexv(in[i + 1]), l = hexv(in[i + 2]); i += 3; if (h < 0 || l < 0) { bad = true; continue; } run += (char)(h * 16 + l); } if (validate && !wellFormed8(run)) bad = true; else want += run; } }
  std::string got; bool threw = false; try { got = Network::UrlDecode::decode(in, validate, thr); } catch (const Exception::NetworkException&) { threw = true; }
  vp_assert(threw == (bad && thr), "malformed input throws exactly when errors are to be reported"); if (!threw) { vp_assert(sameText(got, want), "plus signs and percent sequences are decoded and nothing else changes"); observeStr("got", got); if (want.size() < in.size()) vp_reach("decoded"); } else vp_reach("threw"); if (bad && !thr) vp_reach("ignored"); }
extern "C" void url_decode() { SymBytes s(symLen(4, "n"), "text"); decodeProps(s.view()); }
extern "C" void url_decode_runs() { SymBytes s(symLen(5, DL + 1, "n"), "text"); allOf(s, "%+c3aG"); decodeProps(s.view()); }
extern "C" void url_decode_utf8() { SymBytes h(2 * symLen(1, 3, "bytes"), "digits"); for (size_t i = 0; i < h.n; i++) vp_assume(((h.p[i] >= '0') & (h.p[i] <= '9')) | ((h.p[i] >= 'A') & (h.p[i] <= 'F'))); std::string t; for (size_t i = 0; i < h.n; i += 2) { t += '%'; t += h.p[i]; t += h.p[i + 1]; } if (vp_choose(2, "tail")) t += "z"; decodeProps(t); }
extern "C" void url_split() { // name=value pairs
  size_t k = symLen(1, 3, "pairs"); std::vector<std::string> ks, vs; std::string t; for (size_t i = 0; i < k; i++) { SymBytes n(symLen(1, 2, "name length"), "name"), v(symLen(2, "value length"), "value"); for (size_t j = 0; j < n.n; j++) vp_assume(n.p[j] != '&' && n.p[j] != '=' && n.p[j] != '%' && n.p[j] != '+'); for (size_t j = 0; j < v.n; j++) vp_assume(v.p[j] != '&' && v.p[j] != '=' && v.p[j] != '%' && v.p[j] != '+'); if (i) t += '&'; t += n.str(); if (v.n || vp_choose(2, "equals")) t += "="; t += v.str(); ks.push_back(n.str()); vs.push_back(v.str()); }
  for (size_t i = 0; i < k; i++) for (size_t j = 0; j < i; j++) if (ks[i].size() == ks[j].size()) vp_assume(!sameText(ks[i], ks[j]));
  auto m = Network::UrlDecode::splitAndDecode(t); vp_assert(m.size() == k, "every parameter has an entry"); for (size_t i = 0; i < k; i++) { auto it = m.find(ks[i]); vp_assert(it != m.end() && sameText(it->second, vs[i]), "every parameter has its value"); } if (k == 3) vp_reach("three"); vp_observe("k", k); }
