/// \file
// Range v3 library
//
//  Copyright Eric Niebler 2013-present
//
//  Use, modification and distribution is subject to the
//  Boost Software License, Version 1.0. (See accompanying
//  file LICENSE_1_0.txt or copy at
//  http://www.boost.org/LICENSE_1_0.txt)
//
// Project home: https://github.com/ericniebler/range-v3
//
#ifndef RANGES_V3_NUMERIC_ACCUMULATE_HPP
#define RANGES_V3_NUMERIC_ACCUMULATE_HPP

#include <meta/meta.hpp>

#include <range/v3/functional/arithmetic.hpp>
#include <range/v3/functional/identity.hpp>
#include <range/v3/functional/invoke.hpp>
#include <range/v3/iterator/concepts.hpp>
#include <range/v3/iterator/traits.hpp>
#include <range/v3/range/access.hpp>
#include <range/v3/range/concepts.hpp>
#include <range/v3/range/traits.hpp>
#include <range/v3/utility/static_const.hpp>

#include <range/v3/detail/prologue.hpp>

namespace ranges
{
    /// \addtogroup group-numerics
    /// @{
    struct accumulate_fn
    {
        // --- /verif/shim: as in range-v3 0.12, without its later requirements on the
        // operation's argument types
        template<typename Rng, typename T, typename Op = plus, typename P = identity,
                 typename = iterator_t<Rng>>
        T operator()(Rng && rng, T init, Op op = Op{}, P proj = P{}) const
        {
            auto first = ranges::begin(rng);
            auto last = ranges::end(rng);
            for(; first != last; ++first)
                init = invoke(op, init, invoke(proj, *first));
            return init;
        }
        // views that later releases only allow to be iterated when not const
        template<typename Rng, typename T, typename Op = plus, typename P = identity,
                 typename = std::enable_if_t<!range<Rng const>>>
        T operator()(Rng const & rng, T init, Op op = Op{}, P proj = P{}) const
        {
            Rng copy = rng;
            auto first = ranges::begin(copy);
            auto last = ranges::end(copy);
            for(; first != last; ++first)
                init = invoke(op, init, invoke(proj, *first));
            return init;
        }
    };

    RANGES_INLINE_VARIABLE(accumulate_fn, accumulate)
    /// @}
} // namespace ranges

#include <range/v3/detail/epilogue.hpp>

#endif
