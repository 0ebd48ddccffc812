#ifndef VP_SHIM_H
#define VP_SHIM_H
void vp_assert_failed(const char *what, const char *file, int line);
#define lua_assert(c) ((c) ? (void)0 : vp_assert_failed(#c, __FILE__, __LINE__))
#endif
