#include "dgv.hh"
#include <vector>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
#include <dune/geometry/generalvertexorder.hh>
#include <dune/geometry/topologyfactory.hh>
using namespace Dune;

// iin: number of ids, ids
DGV_ENTRY(vo_reduce,
  reduceOrder(iin+1, iin+1+iin[0], iout);
)
DGV_ENTRY(vo_reduce_unsigned,
  std::vector<unsigned long> v(iin+1, iin+1+iin[0]), w(iin[0]);
  reduceOrder(v.begin(), v.end(), w.begin());
  for (long i = 0; i < iin[0]; ++i) iout[i] = w[i];
)
DGV_ENTRY(vo_reduce_double,
  reduceOrder(in, in+iin[0], iout);
)

// iin: topology id, codim, sub-entity, number of ids, ids
// iout: type, number of vertices, ranks by iteration, reduced order, ranks by random access
template<int dim>
static void vo (const long* iin, long* iout)
{
  GeneralVertexOrder<dim> vo(GeometryType(iin[0], dim), iin+4, iin+4+iin[3]);
  *iout++ = vo.type().id();
  *iout++ = vo.type().dim();
  auto b = vo.begin(iin[1], iin[2]), e = vo.end(iin[1], iin[2]);
  long n = 0;
  for (auto i = b; i != e; ++i) ++n;
  *iout++ = n;
  *iout++ = e - b;
  for (auto i = b; i != e; ++i) *iout++ = *i;
  std::vector<std::size_t> r;
  vo.getReduced(iin[1], iin[2], r);
  *iout++ = r.size();
  for (auto x : r) *iout++ = x;
  for (long k = 0; k < n; ++k) *iout++ = b[k];
  for (long k = 0; k < n; ++k) *iout++ = e[k-n];
  for (long k = 0; k < n; ++k) *iout++ = *(b+k);
  for (long k = 0; k < n; ++k) { auto i = e; i -= n-k; *iout++ = i[0]; }
  for (auto i = e; i != b; ) *iout++ = *--i;
  *iout++ = b - e;
  *iout++ = (b < e);
}
DGV_ENTRY(vo_1, vo<1>(iin, iout);)
DGV_ENTRY(vo_2, vo<2>(iin, iout);)
DGV_ENTRY(vo_3, vo<3>(iin, iout);)

// topology factories: the object remembers what it was made for
struct Obj { long id, dim, key; };
template<int d> struct Maker
{
  template<GeometryType::Id geometryId> static const Obj* createObject (const int& key)
  { constexpr GeometryType g = geometryId; return new Obj{ g.id(), g.dim(), key }; }
  template<class Topology> static const Obj* createObject (const int& key)
  { return new Obj{ Topology::id, Topology::dimension, key }; }
};
template<int d> struct MakerTraits
{ static const unsigned int dimension = d; typedef int Key; typedef const Obj Object; typedef Maker<d> Factory; };

template<int d, unsigned int i>
struct Topo { static const unsigned int dimension = d, id = i; };
template<int d, unsigned int id>
static const Obj* stat (unsigned int i, int key, bool single, bool byClass)
{
  if (i == id) {
    if (byClass) {
      if (single) return TopologySingletonFactory<TopologyFactory<MakerTraits<d>>>::template create<Topo<d,id>>(key);
      else return TopologyFactory<MakerTraits<d>>::template create<Topo<d,id>>(key);
    }
    constexpr GeometryType::Id g = GeometryType(id, d);
    if (single) return TopologySingletonFactory<TopologyFactory<MakerTraits<d>>>::template create<g>(key);
    else return TopologyFactory<MakerTraits<d>>::template create<g>(key);
  }
  if constexpr (id+1 < (1u << d)) return stat<d,id+1>(i, key, single, byClass);
  return nullptr;
}
// iin: id, key, dynamic (0), static by id (1), static by class (2)
// iout: what the object was made for
template<int d>
static void tf (const long* iin, long* iout)
{
  const Obj* o = iin[2] ? stat<d,0>(iin[0], iin[1], false, iin[2] == 2) : TopologyFactory<MakerTraits<d>>::create(GeometryType(iin[0], d), iin[1]);
  iout[0] = o->id; iout[1] = o->dim; iout[2] = o->key;
  TopologyFactory<MakerTraits<d>>::release(o);
}
// iin: number of requests; per request: id, key, dynamic or static
// iout, per request: what the object was made for, first request that gave the same object
template<int d>
static void ts (const long* iin, long* iout)
{
  const Obj* seen[8];
  long n = *iin++;
  for (long k = 0; k < n; ++k, iin += 3) {
    const Obj* o = iin[2] ? stat<d,0>(iin[0], iin[1], true, iin[2] == 2)
                          : TopologySingletonFactory<TopologyFactory<MakerTraits<d>>>::create(GeometryType(iin[0], d), iin[1]);
    seen[k] = o;
    long f = 0;
    while (seen[f] != o) ++f;
    *iout++ = o->id; *iout++ = o->dim; *iout++ = o->key; *iout++ = f;
    TopologySingletonFactory<TopologyFactory<MakerTraits<d>>>::release(o);
  }
}
#define TF(d) DGV_ENTRY(tf_##d, tf<d>(iin, iout);) DGV_ENTRY(ts_##d, ts<d>(iin, iout);)
TF(0) TF(1) TF(2) TF(3)
