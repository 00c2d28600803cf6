// Tolerates variations of interfaces that are not exercised by the repository's own tests.
#pragma once
#include <type_traits>
#include <utility>
#include "cnn_from_scratch/Layers/Softmax.h"
template <typename S, typename = void> struct HasSlotLabel : std::false_type {};
template <typename S> struct HasSlotLabel<S, std::void_t<decltype(std::declval<S&>().assignTrueLabel((size_t)0, (size_t)0))>> : std::true_type {};
template <typename S> void assignLabel(S& s, size_t label, size_t slot) { if constexpr (HasSlotLabel<S>::value) s.assignTrueLabel(label, slot); else s.assignTrueLabel(label); }
