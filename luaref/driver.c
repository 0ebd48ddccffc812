/* Runs chunks in a stock Lua 5.1.5 with the host functions of the model.
   Requests on stdin, replies on stdout (length prefixed):
     'L' chunk                 load only
     'C' source  [S|D]         compile, reply is the dumped chunk
     'R' chunk script          run with scripted answers */
#include <setjmp.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "lua.h"
#include "lauxlib.h"

static char *out;
static size_t outn, outcap;
static void put(const char *s, size_t n) {
  if (outn + n + 1 > outcap) {
    outcap = (outn + n + 1) * 2;
    out = realloc(out, outcap);
  }
  memcpy(out + outn, s, n);
  outn += n;
  out[outn] = 0;
}
static void puts_(const char *s) { put(s, strlen(s)); }
static void reply(void) {
  uint32_t n = outn;
  fwrite(&n, 4, 1, stdout);
  fwrite(out ? out : "", 1, outn, stdout);
  fflush(stdout);
  outn = 0;
}
void vp_assert_failed(const char *what, const char *file, int line) {
  char b[512];
  const char *f = strrchr(file, '/');
  snprintf(b, sizeof b, "assertion %s failed at %s:%d\n", what, f ? f + 1 : file, line);
  puts_(b);
  reply();
  _exit(3);
}
static void need(void *p, size_t n) {
  if (fread(p, 1, n, stdin) != n) exit(0);
}
static char *blob(size_t *n) {
  uint32_t k;
  char *b;
  need(&k, 4);
  b = malloc(k + 1);
  need(b, k);
  b[k] = 0;
  *n = k;
  return b;
}

/* script */
static char *cur;
static const char *tok(void) {
  char *s;
  while (*cur == ' ' || *cur == '\n') cur++;
  s = cur;
  if (!*s) return "";
  while (*cur && *cur != ' ' && *cur != '\n') cur++;
  if (*cur) *cur++ = 0;
  return s;
}
static long tokn(void) { return strtol(tok(), 0, 10); }
static int ignore_n;
static int nglobals;
static char **globals;

/* rendering, the same as in the model */
static void render(lua_State *L, int i, int depth, int seen);
static int rank(lua_State *L, int i) {
  switch (lua_type(L, i)) {
    case LUA_TNUMBER: return 0;
    case LUA_TSTRING: return 1;
    case LUA_TBOOLEAN: return 2;
    default: return 4;
  }
}
static int keycmp(lua_State *L, int a, int b) {
  int ra = rank(L, a), rb = rank(L, b);
  if (ra != rb) return ra < rb ? -1 : 1;
  if (ra == 0) {
    lua_Number x = lua_tonumber(L, a), y = lua_tonumber(L, b);
    return x < y ? -1 : x > y;
  }
  if (ra == 1) {
    size_t n, m;
    const char *x = lua_tolstring(L, a, &n), *y = lua_tolstring(L, b, &m);
    int c = memcmp(x, y, n < m ? n : m);
    return c ? c : n < m ? -1 : n > m;
  }
  return lua_toboolean(L, a) - lua_toboolean(L, b);
}
/* pushes an array of the sorted keys of the table at t, returns their number */
static int keys(lua_State *L, int t) {
  int n = 0, k, i, j;
  lua_newtable(L);
  k = lua_gettop(L);
  lua_pushnil(L);
  while (lua_next(L, t)) {
    lua_pop(L, 1);
    lua_pushvalue(L, -1);
    lua_rawseti(L, k, ++n);
  }
  for (i = 2; i <= n; i++) /* insertion sort */
    for (j = i; j > 1; j--) {
      lua_rawgeti(L, k, j - 1);
      lua_rawgeti(L, k, j);
      if (keycmp(L, -2, -1) <= 0) {
        lua_pop(L, 2);
        break;
      }
      lua_rawseti(L, k, j - 1);
      lua_rawseti(L, k, j);
    }
  return n;
}
static void render(lua_State *L, int i, int depth, int seen) {
  char b[64];
  luaL_checkstack(L, 20, "render");
  switch (lua_type(L, i)) {
    case LUA_TNIL: puts_("nil"); break;
    case LUA_TBOOLEAN: puts_(lua_toboolean(L, i) ? "true" : "false"); break;
    case LUA_TNUMBER: sprintf(b, LUA_NUMBER_FMT, lua_tonumber(L, i)); puts_(b); break;
    case LUA_TSTRING: {
      size_t n, j;
      const char *s = lua_tolstring(L, i, &n);
      puts_("\"");
      for (j = 0; j < n; j++) {
        unsigned char c = s[j];
        if (c >= 32 && c < 127 && c != '"' && c != '\\') put((char *)&c, 1);
        else {
          sprintf(b, "\\%03d", c);
          puts_(b);
        }
      }
      puts_("\"");
      break;
    }
    case LUA_TFUNCTION: puts_("F"); break;
    case LUA_TTABLE: {
      int n, k, j, first = 1;
      lua_pushvalue(L, i);
      lua_rawget(L, seen);
      if (!lua_isnil(L, -1)) {
        sprintf(b, "@%d", (int)lua_tonumber(L, -1));
        puts_(b);
        lua_pop(L, 1);
        break;
      }
      lua_pop(L, 1);
      if (depth > 12) {
        puts_("...");
        break;
      }
      lua_rawgeti(L, seen, 0);
      j = (int)lua_tonumber(L, -1);
      lua_pop(L, 1);
      lua_pushvalue(L, i);
      lua_pushnumber(L, j);
      lua_rawset(L, seen);
      lua_pushnumber(L, j + 1);
      lua_rawseti(L, seen, 0);
      puts_("{");
      n = keys(L, i);
      k = lua_gettop(L);
      for (j = 1; j <= n; j++) {
        lua_rawgeti(L, k, j);
        if (ignore_n && lua_type(L, -1) == LUA_TSTRING && !strcmp(lua_tostring(L, -1), "n")) {
          lua_pop(L, 1);
          continue;
        }
        if (!first) puts_(",");
        first = 0;
        render(L, lua_gettop(L), depth + 1, seen);
        puts_("=");
        lua_rawget(L, i);
        render(L, lua_gettop(L), depth + 1, seen);
        lua_pop(L, 1);
      }
      lua_pop(L, 1);
      puts_("}");
      break;
    }
    default: puts_("?");
  }
}
/* one event: values from..to on the stack, then the globals */
static void event(lua_State *L, const char *what, int from, int to) {
  char b[128];
  int i, first = 1, seen, n = to >= from ? to - from + 1 : 0;
  luaL_checkstack(L, 40, "event");
  lua_newtable(L);
  seen = lua_gettop(L);
  lua_pushnumber(L, 0);
  lua_rawseti(L, seen, 0);
  sprintf(b, "%s/%d ", what, n);
  puts_(b);
  for (i = from; i <= to; i++) {
    if (!first) puts_(" ");
    first = 0;
    render(L, i, 0, seen);
  }
  for (i = 0; i < nglobals; i++) {
    lua_getglobal(L, globals[i]);
    if (!lua_isnil(L, -1)) {
      if (!first) puts_(" ");
      first = 0;
      render(L, lua_gettop(L), 0, seen);
    }
    lua_pop(L, 1);
  }
  puts_(" | ");
  first = 1;
  for (i = 0; i < nglobals; i++) {
    lua_getglobal(L, globals[i]);
    if (!lua_isnil(L, -1)) {
      if (!first) puts_(" ");
      first = 0;
      puts_(globals[i]);
    }
    lua_pop(L, 1);
  }
  puts_("\t");
  lua_settop(L, seen - 1);
}
static void lines(lua_State *L) {
  lua_Debug ar;
  int level, first = 1;
  char b[32];
  for (level = 1; lua_getstack(L, level, &ar); level++) {
    lua_getinfo(L, "Sl", &ar);
    if (!strcmp(ar.what, "tail")) continue;
    if (!first) puts_(" ");
    first = 0;
    if (ar.currentline < 0) puts_("?");
    else {
      sprintf(b, "%d", ar.currentline);
      puts_(b);
    }
  }
  puts_("\n");
}

static int nanswers, maxevents;
static int stopped; /* answers exhausted or budget used up */
static int push_answer(lua_State *L);
static int h_type(lua_State *L) {
  luaL_checkany(L, 1);
  lua_pushstring(L, lua_typename(L, lua_type(L, 1)));
  return 1;
}
static int h_next(lua_State *L) {
  int n, k, i;
  luaL_checktype(L, 1, LUA_TTABLE);
  lua_settop(L, 2);
  n = keys(L, 1);
  k = lua_gettop(L);
  i = 1;
  if (!lua_isnil(L, 2)) {
    for (; i <= n; i++) {
      lua_rawgeti(L, k, i);
      if (lua_rawequal(L, -1, 2)) break;
      lua_pop(L, 1);
    }
    if (i > n) return luaL_error(L, "next key");
    i++;
  }
  if (i > n) {
    lua_pushnil(L);
    return 1;
  }
  lua_rawgeti(L, k, i);
  lua_pushvalue(L, -1);
  lua_rawget(L, 1);
  return 2;
}
static int h_event(lua_State *L) {
  const char *name = lua_tostring(L, lua_upvalueindex(1));
  int n = lua_gettop(L), i, k;
  if (maxevents-- <= 0) {
    stopped = 1;
    return luaL_error(L, "enough");
  }
  event(L, name, 1, n);
  lines(L);
  if (!strcmp(name, "emit")) return 0;
  if (!strcmp(name, "val")) {
    return n;
  }
  lua_settop(L, 0);
  if (nanswers-- <= 0) {
    stopped = 1;
    return luaL_error(L, "exhausted");
  }
  k = (int)tokn();
  luaL_checkstack(L, k + 5, "answers");
  for (i = 0; i < k; i++) push_answer(L);
  return k;
}
static void push_host(lua_State *L, const char *name) {
  if (!strcmp(name, "type")) lua_pushcfunction(L, h_type);
  else if (!strcmp(name, "next")) lua_pushcfunction(L, h_next);
  else {
    /* one closure per host function, so that they compare equal */
    lua_getfield(L, LUA_REGISTRYINDEX, name);
    if (lua_isnil(L, -1)) {
      lua_pop(L, 1);
      lua_pushstring(L, name);
      lua_pushcclosure(L, h_event, 1);
      lua_pushvalue(L, -1);
      lua_setfield(L, LUA_REGISTRYINDEX, name);
    }
  }
}
static int push_answer(lua_State *L) {
  const char *t = tok();
  switch (*t) {
    case 't': lua_pushboolean(L, 1); break;
    case 'f': lua_pushboolean(L, 0); break;
    case 'd': lua_pushnumber(L, strtod(t + 1, 0)); break;
    case 's': lua_pushstring(L, t + 1); break;
    case 'h': push_host(L, t + 1); break;
    case 'l': {
      int n = atoi(t + 1), i;
      lua_newtable(L);
      for (i = 1; i <= n; i++) {
        push_answer(L);
        lua_rawseti(L, -2, i);
      }
      break;
    }
    default: lua_pushnil(L);
  }
  return 1;
}
static void hook(lua_State *L, lua_Debug *ar) {
  (void)ar;
  stopped = 2;
  luaL_error(L, "budget");
}
static size_t used;
static void *alloc(void *ud, void *p, size_t o, size_t n) {
  (void)ud;
  used += n - o;
  if (n == 0) {
    free(p);
    return NULL;
  }
  if (used > (size_t)512 << 20) {
    used -= n - o;
    return NULL;
  }
  return realloc(p, n);
}
static int writer(lua_State *L, const void *p, size_t n, void *ud) {
  (void)L;
  (void)ud;
  put(p, n);
  return 0;
}
static lua_State *fresh(void) {
  static const char *const hosts[] = {"emit", "ask", "val", "multi", "it", "type", "next", "num", "any", 0};
  lua_State *L = lua_newstate(alloc, NULL);
  int i;
  for (i = 0; hosts[i]; i++) {
    push_host(L, hosts[i]);
    lua_setglobal(L, hosts[i]);
  }
  lua_newtable(L);
  push_host(L, "val");
  lua_setfield(L, -2, "m");
  lua_pushnumber(L, 5);
  lua_setfield(L, -2, "x");
  lua_setglobal(L, "obj");
  return L;
}
static char *unhex(const char *h) {
  size_t n = strlen(h) / 2, i;
  char *s = malloc(n + 1);
  unsigned c;
  for (i = 0; i < n; i++) {
    sscanf(h + 2 * i, "%2x", &c);
    s[i] = c;
  }
  s[n] = 0;
  return s;
}

int main(void) {
  for (;;) {
    char cmd;
    size_t n, m;
    char *chunk, *text;
    lua_State *L;
    int i, k, st;
    need(&cmd, 1);
    chunk = blob(&n);
    L = fresh();
    if (cmd == 'L') {
      st = luaL_loadbuffer(L, chunk, n, "=chunk");
      if (st) {
        puts_("err ");
        puts_(lua_tostring(L, -1));
      } else puts_("ok");
    } else if (cmd == 'C') {
      st = luaL_loadbuffer(L, chunk, n, "@prog");
      if (st) {
        puts_("err ");
        puts_(lua_tostring(L, -1));
      } else lua_dump(L, writer, NULL);
    } else {
      text = blob(&m);
      cur = text;
      ignore_n = tokn();
      st = luaL_loadbuffer(L, chunk, n, "=chunk");
      if (st) {
        puts_("load error: ");
        puts_(lua_tostring(L, -1));
        puts_("\t\n");
      } else {
        int np;
        k = tokn();
        luaL_checkstack(L, k + 50, "arguments");
        for (i = 0; i < k; i++) push_answer(L);
        np = tokn();
        for (i = 0; i < np; i++) {
          char *name = unhex(tok());
          push_answer(L);
          lua_setglobal(L, name);
          free(name);
        }
        nglobals = tokn();
        globals = malloc(sizeof(char *) * (nglobals + 1));
        for (i = 0; i < nglobals; i++) globals[i] = unhex(tok());
        maxevents = tokn();
        nanswers = tokn();
        stopped = 0;
        lua_sethook(L, hook, LUA_MASKCOUNT, 400000);
        st = lua_pcall(L, k, LUA_MULTRET, 0);
        lua_sethook(L, NULL, 0, 0);
        if (st && stopped == 1) puts_("stopped\t\n");
        else if (st && stopped == 2) puts_("diverges\t\n");
        else if (st) {
          const char *msg = lua_tostring(L, -1);
          char *copy = strdup(msg ? msg : "?");
          lua_settop(L, 0);
          event(L, "error", 1, 0);
          puts_(copy);
          puts_("\n");
          free(copy);
        } else {
          event(L, "done", 1, lua_gettop(L));
          puts_("\n");
        }
        for (i = 0; i < nglobals; i++) free(globals[i]);
        free(globals);
      }
      free(text);
    }
    lua_close(L);
    used = 0;
    free(chunk);
    reply();
  }
}
