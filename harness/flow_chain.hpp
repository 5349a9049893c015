// Pipelines of expressions, built with every subset of the intermediate
// expressions made into actual cursors.
#pragma once
#include "flow_handles.hpp"
#include <zug/transducer/map.hpp>

namespace chain {

// D steps may still be added to e; Wr: e is writable, Tup: it has two values
template <int D, bool Wr, bool Tup, class E>
Box go(E&& e, const std::vector<step>& st, std::size_t i, unsigned mode, bool w,
       std::size_t split)
{
    if (i == st.size()) {
        if constexpr (Wr) {
            if (w)
                return hold<true>(std::move(e));
        }
        return hold<false>(std::move(e));
    }
    if constexpr (D > 0) {
        // materialise and go on from the actual cursor
        if (i > 0 && (mode >> (i - 1)) & 1) {
            std::vector<step> rest(st.begin() + i, st.end());
            if constexpr (Tup)
                return chain_t(Re2{std::move(e).make()}, rest, mode >> i, w);
            else if constexpr (Wr)
                return chain1(Cur{std::move(e).make()}, rest, mode >> i, w);
            else
                return chain1(Rea{std::move(e).make()}, rest, mode >> i, w);
        }
        auto& f = st[i].f;
        switch (st[i].k) {
        case 'z':
            return go<D - 1, Wr, false>(std::move(e).zoom(mk_lens(f)), st, i + 1, mode, w, 0);
        case 'm':
            return go<D - 1, false, false>(std::move(e).map(mk_fn(f)), st, i + 1, mode, w, 0);
        case 'f':
            return go<D - 1, false, Tup>(
                std::move(e).filter(mk_pred(f)), st, i + 1, mode, w, split);
        case 'x':
            if constexpr (Wr && Tup)
                return go<D - 1, true, false>(
                    std::move(e).xform(
                        zug::map(mk_fn(f)),
                        zug::map([g = inv(f), split](const V& x) {
                            return unflat(T2{V{ivec(split)}, V{ivec{}}}, fn(g, x.d));
                        })),
                    st, i + 1, mode, w, 0);
            else if constexpr (Wr)
                return go<D - 1, true, false>(
                    std::move(e).xform(zug::map(mk_fn(f)), zug::map(mk_fn(inv(f)))),
                    st, i + 1, mode, w, 0);
        }
    }
    throw mbt::usage("chain too long");
}

} // namespace chain
