#pragma once
#include "store_world.hpp"

namespace sw {
template <bool Trans, bool Fut, bool Eff>
struct plain
{
    static constexpr int init   = 0;
    static constexpr bool thunk = false, debugger = false;
    using action_t              = act<Eff>;
    using effect_t              = void;
    using tag_t = std::conditional_t<Trans,
                                     lager::transactional_tag,
                                     lager::automatic_tag>;
    static const model& value(const model& m) { return m; }
    static auto make(any_loop l)
    {
        if constexpr (Fut)
            return lager::make_store<action_t, tag_t>(model{}, l, lager::with_futures);
        else
            return lager::make_store<action_t, tag_t>(model{}, l);
    }
};
void run_00(const json&, const options&, bool eff);
void run_01(const json&, const options&, bool eff);
void run_10(const json&, const options&, bool eff);
void run_11(const json&, const options&, bool eff);
} // namespace sw
