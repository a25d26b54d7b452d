// S02: the other translation unit
#include "S02.h"

View other_look()
{
    auto & s = mito::simulation::simulation();
    const auto & k = s.context();
    return { &s, &k, &s.clock(), k.task_id(), k.n_tasks(), s.clock() };
}

const void * other_probe(int v)
{
    return &mito::utilities::Singleton<Probe>::GetInstance(v);
}

const void * other_singleton(int which)
{
    if (which == 0) return &mito::topology::topology();
    if (which == 1) return &mito::geometry::point_cloud<2>();
    return &mito::geometry::point_cloud<3>();
}

// use the parts of the library that are ordinary functions
int other_library()
{
    auto & t = mito::topology::topology();
    auto a = t.vertex(), b = t.vertex(), c = t.vertex(), d = t.vertex();
    auto p = std::pair(t.triangle({ a, b, c }), t.triangle({ b, d, c }));
    auto q = mito::topology::flip_diagonal(p);
    int n = 0;
    for (auto & s : q.first->composition()) n += mito::topology::head(s) != mito::topology::tail(s);
    return n;
}
