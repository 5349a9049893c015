#include "flow_chain.hpp"
Box chain2(const Cur& a, const Cur& b, const std::vector<step>& st, unsigned mode, bool w)
{
    return chain::go<3, is_writable<Cur>, true>(
        lager::with(a, b), st, 0, mode, w, a.get().d.size());
}
