#include "dgv.hh"
#include <cstddef>
#include <mutex>
#include <vector>
#include <dune/geometry/quadraturerules/quadraturerules.cc>
using namespace Dune;

// the factories are private: an explicit instantiation may name them
template<int d> struct FactoryTag {
  typedef QuadratureRule<double,d> (*Rule)(const GeometryType&, int, QuadratureType::Enum);
  friend Rule factory (FactoryTag);
};
template<class Tag, typename Tag::Rule f> struct Grant { friend typename Tag::Rule factory (Tag) { return f; } };
template struct Grant<FactoryTag<0>, &QuadratureRuleFactory<double,0>::rule>;
template struct Grant<FactoryTag<1>, &QuadratureRuleFactory<double,1>::rule>;
template struct Grant<FactoryTag<2>, &QuadratureRuleFactory<double,2>::rule>;
template struct Grant<FactoryTag<3>, &QuadratureRuleFactory<double,3>::rule>;

// a rule as the factories are contracted to return it: a function of the request
template<int d> struct Some : QuadratureRule<double,d> {
  Some (const GeometryType& t, int p, int qt) : QuadratureRule<double,d>(t)
  {
    this->delivered_order = p;
    this->push_back(QuadraturePoint<double,d>(FieldVector<double,d>(p), 2*qt+1));
    this->push_back(QuadraturePoint<double,d>(FieldVector<double,d>(t.id() >> 1), 3));
  }
};
extern "C" {
  void some_0 (void* o, const GeometryType& t, int p, int qt) { new (o) QuadratureRule<double,0>(Some<0>(t, 0, 0)); }
  void some_1 (void* o, const GeometryType& t, int p, int qt) { new (o) QuadratureRule<double,1>(Some<1>(t, p, qt)); }
  void some_2 (void* o, const GeometryType& t, int p, int qt) { new (o) QuadratureRule<double,2>(Some<2>(t, p, qt)); }
  void some_3 (void* o, const GeometryType& t, int p, int qt) { new (o) QuadratureRule<double,3>(Some<3>(t, p, qt)); }
}

// marks in the run: from here on the rest of the cache is arbitrary; here the cache has to be as assumed
static volatile long sink;
static const void* volatile where;
extern "C" __attribute__((noinline)) void qc_arbitrary (long level, long size, long i, long offset) { sink = level+size+i+offset; }
extern "C" __attribute__((noinline)) void qc_stored (const void* p, long max) { where = p; sink = max; }

__attribute__((noinline)) static unsigned long key (const GeometryType& t)
{ return t.dim() == 0 ? 0 : t.isNone() ? 1 : (t.id() >> 1)*2ul + 2 + ((unsigned long)t.dim() << 40); }
template<int d>
static bool same (const QuadratureRule<double,d>& a, const QuadratureRule<double,d>& b)
{
  if (a.size() != b.size() || a.order() != b.order() || key(a.type()) != key(b.type())) return false;
  for (std::size_t i = 0; i < a.size(); ++i)
    if (a[i].weight() != b[i].weight() || a[i].position() != b[i].position()) return false;
  return true;
}

// iin: topology id, order, family; number of requests before and these requests; the topology id is requested by its basic
// type in the second request (even id) or in the first (odd id)
// iout: 0 answered, 1 out of range, 2 other error; is it the rule of the factory; the same object for the same request;
// order; topology id; largest order
static GeometryType::BasicType basic (int d, unsigned long id)
{
  id >>= 1;
  if (d <= 1 || id == 0) return d == 0 || id > 0 ? GeometryType::cube : GeometryType::simplex;
  if (d == 2 || id == 3) return GeometryType::cube;
  return id == 1 ? GeometryType::pyramid : GeometryType::prism;
}
template<int d>
static const QuadratureRule<double,d>& request (const GeometryType& t, int p, QuadratureType::Enum qt, bool b)
{
  return b ? QuadratureRules<double,d>::rule(basic(d, t.id()), p, qt) : QuadratureRules<double,d>::rule(t, p, qt);
}
template<int d>
static void step (const long* iin, long* iout)
{
  typedef QuadratureRules<double,d> Rules;
  typedef std::pair<std::once_flag, QuadratureRule<double,d>> O;
  typedef std::pair<std::once_flag, std::vector<O>> T;
  typedef std::pair<std::once_flag, std::vector<T>> Q;
  const GeometryType t(iin[0], d);
  const int p = iin[1];
  const QuadratureType::Enum qt = QuadratureType::Enum(iin[2]);
  iout[5] = Rules::maxOrder(t, qt);
  for (long i = 0; i < iin[3]; ++i) {
    const long* r = iin+4+3*i;
    try { Rules::rule(r[0] < 0 ? GeometryTypes::none(d) : GeometryType(r[0], d), r[1], QuadratureType::Enum(r[2])); }
    catch (...) {}
  }
  qc_arbitrary(0, sizeof(Q), qt, offsetof(Q, second));
  qc_arbitrary(1, sizeof(T), LocalGeometryTypeIndex::index(t), offsetof(T, second));
  qc_arbitrary(2, sizeof(O), d == 0 ? 0 : p, offsetof(O, second));
  const QuadratureRule<double,d>* rule = nullptr;
  for (int i = 0; i < 5; ++i) iout[i] = 0;
  try {
    rule = &request<d>(t, p, qt, iin[0] & 1);
    iout[1] = same<d>(*rule, factory(FactoryTag<d>())(t, p, qt));
    iout[3] = rule->order();
    iout[4] = rule->type().id();
    iout[2] = &request<d>(t, p, qt, !(iin[0] & 1)) == rule && &Rules::rule(t, p, qt) == rule;
  }
  catch (QuadratureOrderOutOfRange&) { iout[0] = 1; }
  catch (...) { iout[0] = 2; }
  qc_stored(rule, iout[5]);
}
DGV_ENTRY(qc_0, step<0>(iin, iout);)
DGV_ENTRY(qc_1, step<1>(iin, iout);)
DGV_ENTRY(qc_2, step<2>(iin, iout);)
DGV_ENTRY(qc_3, step<3>(iin, iout);)
