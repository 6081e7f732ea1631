#include <unicode/utf8.h>
#include <cstdio>
#include <cstdlib>
#define VP_NAME(x) x##_m
#include "../rt/icu_model.inc"
int main() { static const unsigned char r[] = {0,0x41,0x7f,0x80,0x81,0x8f,0x90,0x9f,0xa0,0xbe,0xbf,0xc0,0xc1,0xc2,0xdf,0xe0,0xe1,0xec,0xed,0xee,0xef,0xf0,0xf1,0xf3,0xf4,0xf5,0xf7,0xf8,0xff}; int N = sizeof r; long k = 0;
 for (int a=0;a<N;a++) for (int b=0;b<N;b++) for(int c=0;c<N;c++) for(int d=0;d<N;d++) { unsigned char s[4]={r[a],r[b],r[c],r[d]}; for (int st=0; st<4; st++) for (int i=st;i<4;i++) for (int strict=-3; strict<=1; strict++) { if (strict == -2) continue;  int p=i,q=i; int x=utf8_prevCharSafeBody(s,st,&p,s[i],strict), y=utf8_prevCharSafeBody_m(s,st,&q,s[i],strict); k++; if(p!=q||x!=y){printf("diff %02x %02x %02x %02x st %d i %d strict %d: %x %x %d %d\n",s[0],s[1],s[2],s[3],st,i,strict,x,y,p,q);return 1;} if(utf8_back1SafeBody(s,st,i)!=utf8_back1SafeBody_m(s,st,i)){printf("back\n");return 1;} } } printf("ok %ld\n",k);}
