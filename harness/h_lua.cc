#include "common.h"
#include "h_lua.h"
#include "config.h"
#ifdef HAVE_LUA
#include <lua.hpp>
#endif

using namespace wreport;

namespace drv {

#ifndef HAVE_LUA
Lua::~Lua() {}
LuaResult Lua::run(Var&, const std::string&, bool) { fprintf(stderr, "driver: built without Lua\n"); exit(3); }
#else

Lua::~Lua() { if (L) lua_close(L); }

static int same_var(lua_State* L)
{
    Var* expected = (Var*)lua_touserdata(L, 2);
    lua_pushboolean(L, Var::lua_check(L, 1) == expected && Var::lua_const_check(L, 1) == expected);
    return 1;
}

LuaResult Lua::run(Var& var, const std::string& op, bool constant)
{
    LuaResult r;
    if (!L)
    {
        L = luaL_newstate();
        luaL_openlibs(L);
        lua_register(L, "same", same_var);
    }
    lua_settop(L, 0);
    if (constant) const_cast<const Var&>(var).lua_push(L); else var.lua_push(L);
    if (lua_gettop(L) != 1) { r.kind = 19; return r; }
    lua_setglobal(L, "v");
    lua_pushlightuserdata(L, &var);
    lua_setglobal(L, "p");
    std::string code;
    if (op == "tostring") code = "return tostring(v)";
    else if (op == "same") code = "return same(v, p)";
    else if (op == "badnum") code = "return v.enqi(5)";
    else if (op == "badnil") code = "return v.code(nil)";
    else if (op == "badtab") code = "return v.enqd({})";
    else if (op == "badfile") code = "return v.enqc(io.stdout)";
    else if (op == "badptr") code = "return v.enqc(p)";
    else if (op == "badnone") code = "return v.enqi()";
    else if (op == "badget") code = "return v:nothing()";
    else code = "return v:" + op + "()";
    if (luaL_loadstring(L, code.c_str()) != 0 || lua_pcall(L, 0, LUA_MULTRET, 0) != 0)
    {
        r.failed = true;
        return r;
    }
    int top = lua_gettop(L);
    if (top == 0 || lua_isnil(L, 1)) r.kind = 0;
    else if (lua_type(L, 1) == LUA_TBOOLEAN) { r.kind = 4; r.n = lua_toboolean(L, 1); }
#if LUA_VERSION_NUM >= 503
    else if (lua_isinteger(L, 1)) { r.kind = 1; r.n = lua_tointeger(L, 1); }
#endif
    else if (lua_type(L, 1) == LUA_TNUMBER) { r.kind = 2; r.d = lua_tonumber(L, 1); }
    else if (lua_type(L, 1) == LUA_TSTRING) { r.kind = 3; size_t n; const char* t = lua_tolstring(L, 1, &n); r.tx.assign(t, n); }
    else r.kind = 9;
    if (top != 1) r.kind += 10;
    return r;
}
#endif

}
