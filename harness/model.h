// Reference list used as the oracle: a plain fixed-size array of values, written independently
// of the library.
#pragma once
#include "vf.h"
template <int CAP> struct Model {
    int v[CAP]; int n;
    Model() : n(0) { for (int i = 0; i < CAP; ++i) v[i] = 0; }
    void push(int x) { v[n] = x; ++n; }
    void pop() { --n; }
    void insert(int i, int x) { for (int k = n; k > i; --k) v[k] = v[k - 1]; v[i] = x; ++n; }
    void erase(int i) { for (int k = i; k + 1 < n; ++k) v[k] = v[k + 1]; --n; }
    void clear() { n = 0; }
    void resize(int m) { for (int k = n; k < m; ++k) v[k] = 0; n = m; }
    void assign(const Model& o) { n = o.n; for (int i = 0; i < n; ++i) v[i] = o.v[i]; }
};
// the container agrees with the model through every read path of its interface
template <class V, int CAP> void agree(V& s, const Model<CAP>& m) {
    const V& c = s;
    VF_ASSERT_MSG((int)c.size() == m.n, "size() equals the model's length");
    VF_ASSERT_MSG((int)efp::length(c) == m.n, "length() equals the model's length");
    VF_ASSERT_MSG(c.empty() == (m.n == 0), "empty() agrees with the length");
    VF_ASSERT_MSG((int)c.capacity() >= m.n, "capacity() covers the length");
    VF_ASSERT_MSG(c.end() - c.begin() == m.n, "begin()/end() span the length");
    VF_ASSERT_MSG(s.end() - s.begin() == m.n, "begin()/end() span the length");
    int k = 0;
    for (const auto& e : c) { VF_ASSERT_MSG(vf::val(e) == m.v[k], "iteration yields the model's elements in order"); ++k; }
    VF_ASSERT_MSG(k == m.n, "iteration visits every element once");
    for (int i = 0; i < m.n; ++i) {
        VF_ASSERT_MSG(vf::val(c[i]) == m.v[i], "operator[] const yields the model's element");
        VF_ASSERT_MSG(vf::val(s[i]) == m.v[i], "operator[] yields the model's element");
        VF_ASSERT_MSG(vf::val(efp::nth(i, c)) == m.v[i], "nth yields the model's element");
        VF_ASSERT_MSG(c.data() + i == &c[i] && s.data() + i == &c[i] && efp::data(c) + i == &c[i] && efp::data(s) + i == &c[i], "data() addresses the elements");
        VF_ASSERT_MSG(&efp::nth(i, s) == &c[i] && &s[i] == &c[i], "nth and [] name the same element");
        vf::obs((uint32_t)vf::val(c[i]));
    }
}
