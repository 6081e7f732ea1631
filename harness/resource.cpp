// URL appending and resolution.
#include "common.hpp"
#include <complex>
#include <fstream>
#include <boost/filesystem/fstream.hpp>
#include <Balau/Type/FromString.hpp>
#include <Balau/Util/Vectors.hpp>
#include <Balau/Resource/UriResolve.hpp>
#include <Balau/Resource/UriFromString.hpp>
using namespace Balau;
using namespace Balau::Resource;
#ifndef RL
#define RL 3
#endif
struct Parts { std::string root, path, query, fragment; };
static Parts base(const char* scheme) { static const char* auth[] = {"h", "u@h", "h:80", "u@h:8080"}; Parts p; p.root = std::string(scheme) + "://" + auth[vp_choose(4, "authority")]; SymBytes s(symLen(RL, "path length"), "path"); allOf(s, "a/."); if (s.n) vp_assume(s.p[0] == '/'); p.path = s.str(); if (vp_choose(2, "query")) p.query = "?q=1"; if (vp_choose(2, "fragment")) p.fragment = "#f"; return p; }
static int sameUrl(const std::string& got, const std::string& root, const std::string& path, const std::string& tail) { if (got.size() < root.size() + tail.size() || got.compare(0, root.size(), root) != 0 || got.compare(got.size() - tail.size(), tail.size(), tail) != 0) return 0; return UriComponents::normalizePath(got.substr(root.size(), got.size() - root.size() - tail.size())) == UriComponents::normalizePath(path); }
template <class U> static void append(const char* scheme) { Parts p = base(scheme); SymBytes c(symLen(1, 2, "n"), "component"); allOf(c, "b."); U u(p.root + p.path + p.query + p.fragment); auto r = u.append(c.str()); vp_assert(dynamic_cast<U*>(r.get()) != nullptr, "appending keeps the type of the URL"); std::string got = r->toUriString(); observeStr("got", got); vp_assert(sameUrl(got, p.root, p.path + "/" + c.str(), p.query + p.fragment), "appending extends the path and keeps every other component"); vp_assert(u.toUriString() == p.root + p.path + p.query + p.fragment, "appending leaves the URL as it was"); vp_reach("done"); }
extern "C" void url_append() { if (vp_choose(2, "scheme")) append<Http>("http"); else append<Https>("https"); }
template <class U> static void resolve(const char* scheme) { Parts p = base(scheme); SymBytes c(symLen(1, RL, "n"), "reference"); allOf(c, "b/."); U u(p.root + p.path + p.query + p.fragment); bool general = vp_choose(2, "through the base class"); auto r = general ? UriResolve::resolve(static_cast<const Uri&>(u), c.view()) : UriResolve::resolve(u, c.view()); vp_assert(dynamic_cast<U*>(r.get()) != nullptr, "resolving keeps the type of the URL"); std::string got = r->toUriString(); observeStr("got", got);
  if (c.p[0] == '/') { vp_assert(sameUrl(got, p.root, c.str(), ""), "an absolute path replaces the path"); vp_reach("absolute"); } else { std::string b = p.path; while (!b.empty() && b.back() != '/') b.pop_back(); if (b.empty()) b = "/"; vp_assert(sameUrl(got, p.root, b + c.str(), ""), "a relative path is resolved against the base path"); vp_reach("relative"); } }
extern "C" void url_resolve() { if (vp_choose(2, "scheme")) resolve<Http>("http"); else resolve<Https>("https"); }

// References with a scheme are URIs of their own.
template <class U> static void absolute(const char* scheme) { Parts p = base(scheme); static const char* refs[] = {"http://o", "https://o", "file:", "file:/", "string:", "zz+1-.:"}; std::string ref = refs[vp_choose(6, "reference")]; SymBytes c(symLen(1, 2, "n"), "rest"); allOf(c, "b/"); ref += c.str(); if (vp_choose(2, "blanks")) ref = " " + ref; U u(p.root + p.path + p.query + p.fragment); bool general = vp_choose(2, "through the base class");
  std::unique_ptr<Uri> r = general ? UriResolve::resolve(static_cast<const Uri&>(u), ref) : UriResolve::resolve(u, ref), want; if (ref[0] == ' ') ref.erase(0, 1); fromString(want, ref); vp_assert(typeid(*r) == typeid(*want) && r->toUriString() == want->toUriString(), "a reference with a scheme is a URI of its own"); vp_reach("done"); }
extern "C" void url_absolute() { if (vp_choose(2, "scheme")) absolute<Http>("http"); else absolute<Https>("https"); }
