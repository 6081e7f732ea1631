// models of the two out of line helpers of ICU's UTF-8 macros (U8_PREV, U8_BACK_1), compared with the installed library by tools/icu_model_test.cpp
extern "C" int VP_NAME(utf8_prevCharSafeBody)(const unsigned char* s, int start, int* pi, int c, signed char strict) {
  auto trail = [](int b) { return (signed char)b < -0x40; }; auto lead = [](int b) { return (unsigned char)(b - 0xc2) <= 0x32; };
  auto t3 = [&](unsigned char l, unsigned char t) { l &= 15; return trail(t) && (l == 0 ? t >= 0xa0 : l == 13 ? t < 0xa0 : true); }; auto t4 = [&](unsigned char l, unsigned char t) { l &= 7; return trail(t) && (l == 0 ? t >= 0x90 : l <= 3 ? true : l == 4 && t < 0x90); };
  auto err = [&](int n) { static const int ev[] = {0x15, 0x9f, 0xffff, 0x10ffff}; return strict >= 0 ? ev[n] : strict == -3 ? 0xfffd : -1; }; auto non = [](int c) { return c >= 0xfdd0 && (c <= 0xfdef || (c & 0xfffe) == 0xfffe) && c <= 0x10ffff; };
  int i = *pi; if (!(trail(c) && i > start)) return err(0); unsigned char b1 = s[--i];
  if (lead(b1)) { if (b1 < 0xe0) { *pi = i; return ((b1 - 0xc0) << 6) | (c & 0x3f); } if (b1 < 0xf0 ? t3(b1, c) : t4(b1, c)) { *pi = i; return err(1); } return err(0); }
  if (!(trail(b1) && i > start)) return err(0);
  c &= 0x3f; unsigned char b2 = s[--i];
  if (0xe0 <= b2 && b2 <= 0xf4) { if (b2 < 0xf0) { if (t3(b2, b1)) { *pi = i; c = ((b2 & 15) << 12) | ((b1 & 0x3f) << 6) | c; return strict <= 0 || !non(c) ? c : err(2); } } else if (t4(b2, b1)) { *pi = i; return err(2); } return err(0); }
  if (!(trail(b2) && i > start)) return err(0);
  unsigned char b3 = s[--i]; if (0xf0 <= b3 && b3 <= 0xf4 && t4(b3, b2)) { *pi = i; c = ((b3 & 7) << 18) | ((b2 & 0x3f) << 12) | ((b1 & 0x3f) << 6) | c; return strict <= 0 || !non(c) ? c : err(3); }
  return err(0); }
extern "C" int VP_NAME(utf8_back1SafeBody)(const unsigned char* s, int start, int i) { int o = i; VP_NAME(utf8_prevCharSafeBody)(s, start, &o, s[i], -1); return o; }
