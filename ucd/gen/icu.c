#include <unicode/uchar.h>
#include <unicode/unorm2.h>
#include <unicode/uversion.h>
#include <stdio.h>
int main(){UErrorCode e=0; const UNormalizer2*nfc=unorm2_getNFCInstance(&e);const UNormalizer2*nfkc=unorm2_getNFKCInstance(&e);
 for(int i=0;i<0x110000;i++){ if(i>=0xD800&&i<0xE000)continue;
  printf("%04X;%d;%d;%d;%d;%d;%d\n",i,u_charType(i),u_getCombiningClass(i),u_getIntPropertyValue(i,UCHAR_NFC_QUICK_CHECK),u_getIntPropertyValue(i,UCHAR_NFKC_QUICK_CHECK),u_getIntPropertyValue(i,UCHAR_NFD_QUICK_CHECK),u_getIntPropertyValue(i,UCHAR_NFKD_QUICK_CHECK)); }
 fprintf(stderr,"%s\n",U_UNICODE_VERSION);}
