// Is a concurrent history explained by some order of its operations, compatible with their real order?
#pragma once
#include <vector>
#include <cstdint>
#include <cstddef>
#include "../engine/conc.h"

namespace lin {
// Rec has a member `int op` (from co::op_begin); Model is copyable and has bool step(const Rec&): can Rec happen next
// with the results it had?
template <typename Model, typename Rec>
bool search(const Model& m, const std::vector<Rec>& h, uint32_t done, const std::vector<uint32_t>& pred, std::vector<std::pair<uint32_t, Model>>& visited) {
    if (done == (1u << h.size()) - 1) return true;
    for (auto& v : visited) if (v.first == done && v.second == m) return false;
    for (size_t i = 0; i < h.size(); ++i) {
        if ((done & (1u << i)) || (pred[i] & ~done)) continue;
        Model n = m;
        if (n.step(h[i]) && search(n, h, done | (1u << i), pred, visited)) return true;
    }
    visited.emplace_back(done, m);
    return false;
}
template <typename Model, typename Rec>
bool linearizable(const Model& init, const std::vector<Rec>& h) {
    if (h.size() > 24) co::fail("engine", "history too long");
    std::vector<uint32_t> pred(h.size(), 0);
    for (size_t i = 0; i < h.size(); ++i) for (size_t j = 0; j < h.size(); ++j) if (i != j && co::op_before(h[j].op, h[i].op)) pred[i] |= 1u << j;
    std::vector<std::pair<uint32_t, Model>> visited;
    return search(init, h, 0, pred, visited);
}
}
