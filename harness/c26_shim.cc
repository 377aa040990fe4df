// linked with the tool: VTK 9.1 cannot read its own XML files through expat 2.6 unless reparse deferral is off (as the project's tests do)
#include <dlfcn.h>
extern "C" void* XML_ParserCreate(const char* e) {
  static auto next = (void* (*)(const char*))dlsym(RTLD_NEXT, "XML_ParserCreate"); void* p = next(e);
  auto set = (unsigned char (*)(void*, unsigned char))dlsym(RTLD_DEFAULT, "XML_SetReparseDeferralEnabled"); if (p && set) set(p, 0);
  return p;
}
