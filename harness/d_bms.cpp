#include "bms_check.hpp"
using namespace verif;
namespace {
struct Free : Suite { // for manual use with --case
    const char* name() const override { return "program"; }
    const char* bound(Tier) const override { return "none"; }
    void enumerate(Tier, const std::function<bool(std::string_view)>&) override { }
    void check(std::string_view c, Ctx& ctx) override { check_syntax(c, ctx); check_program(c, ctx, { .wide = true }); }
};
Register<Free> r0;
}
