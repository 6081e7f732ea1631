// Explicit instantiations of the standard library templates whose bodies the code under test reaches through native objects.
#include <istream>
#include <locale>
#include <ostream>
#include <sstream>
#include <string>
template class std::num_put<char>;
template class std::num_get<char>;
template class std::basic_string<char>;
template class std::basic_ostream<char>;
template class std::basic_istream<char>;
template class std::basic_iostream<char>;
template class std::basic_streambuf<char>;
template class std::basic_stringbuf<char>;
template class std::basic_ostringstream<char>;
template class std::basic_istringstream<char>;
template class std::basic_stringstream<char>;
template class std::basic_ios<char>;
template class std::basic_string<char32_t>;
template class std::basic_string<char16_t>;
template std::ostream& std::__ostream_insert(std::ostream&, const char*, std::streamsize);
// the library's own algorithm for copying between stream buffers
extern "C" std::streamsize vp_copy_streambufs(std::streambuf* in, std::streambuf* out, bool& eof) __asm__("_ZSt21__copy_streambufs_eofIcSt11char_traitsIcEElPSt15basic_streambufIT_T0_ES6_Rb");
extern "C" std::streamsize vp_copy_streambufs(std::streambuf* in, std::streambuf* out, bool& eof) {
  std::streamsize n = 0; eof = true; int c = in->sgetc();
  while (c != std::char_traits<char>::eof()) { if (out->sputc((char)c) == std::char_traits<char>::eof()) { eof = false; break; } n++; c = in->snextc(); }
  return n;
}
extern "C" std::istream& vp_getline(std::istream& in, std::string& s, char delim) __asm__("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_");
extern "C" std::istream& vp_getline(std::istream& in, std::string& s, char delim) {
  size_t n = 0; std::ios_base::iostate err = std::ios_base::goodbit; std::istream::sentry ok(in, true);
  if (ok) { s.erase(); std::streambuf* b = in.rdbuf(); int c = b->sgetc();
    for (;; c = b->snextc()) { if (c == std::char_traits<char>::eof()) { err |= std::ios_base::eofbit; break; } if ((char)c == delim) { n++; b->sbumpc(); break; } s += (char)c; n++; } }
  if (!n) err |= std::ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
