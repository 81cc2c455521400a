// Reading variables from Lua
#pragma once
#include <string>
#include <wreport/var.h>

struct lua_State;
namespace drv {

// Results: kind 0 nil, 1 integer, 2 float, 3 string, 4 boolean, 9 anything else; 10 more if there is not exactly one
struct LuaResult { bool failed = false; int kind = 0; long n = 0; double d = 0; std::string tx; };

struct Lua
{
    lua_State* L = nullptr;
    ~Lua();
    // op: code, enqi, enqd, enqc, tostring: the method; same: whether what comes back is the variable;
    // bad*: methods called with something that is not a variable
    LuaResult run(wreport::Var& var, const std::string& op, bool constant);
};

}
