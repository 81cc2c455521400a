// What to do with values that do not fit
#ifndef VERIF_POLICY_H
#define VERIF_POLICY_H
#include "common.h"

namespace drv {

struct Hook : public wreport::options::DomainErrorHook
{
    std::string mode;
    int count = 0;
    void act(wreport::Var& var)
    {
        ++count;
        if (mode == "unset") var.unset();
        else if (mode == "low") var.seti(var.info()->imin);
    }
    void handle_domain_error_int(wreport::Var& var, int32_t) override { act(var); }
    void handle_domain_error_double(wreport::Var& var, double) override { act(var); }
};

struct Policy
{
    Hook hook;
    wreport::options::LocalOverride<bool> sil, cla;
    wreport::options::LocalOverride<wreport::options::DomainErrorHook*> hk;
    Policy(bool s, bool c, const std::string& h)
        : sil(wreport::options::var_silent_domain_errors, s), cla(wreport::options::var_clamp_domain_errors, c),
          hk(wreport::options::var_hook_domain_errors, h == "none" ? nullptr : &hook)
    {
        hook.mode = h;
    }
};

void put_full(J& j, const wreport::Var& v, bool attrs);

}
#endif
