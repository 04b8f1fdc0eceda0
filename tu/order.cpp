#include <Collections/PartialOrdering.cpp>
#include "common.h"
using namespace vl; using namespace vl::collections;
// partial ordering
typedef PartialOrderingProcessor POP;
OBJ(POP, POP) MK(POP, POP)
FIELD(POP, emptyList, POP) FIELD(POP, ins, POP) FIELD(POP, outs, POP) FIELD(POP, firstNodesBuffer, POP) FIELD(POP, subClassItemsBuffer, POP) FIELD(POP, nodes, POP) FIELD(POP, components, POP)
OBJ(ARR, Array<vint>) MK(ARR, Array<vint>) FIELD(ARR, buffer, Array<vint>) FIELD(ARR, count, Array<vint>)
OBJ(NARR, Array<po::Node>) MK(NARR, Array<po::Node>) FIELD(NARR, buffer, Array<po::Node>) FIELD(NARR, count, Array<po::Node>)
OBJ(NODE, po::Node) MK(NODE, po::Node) FIELD(NODE, visited, po::Node) FIELD(NODE, component, po::Node) FIELD(NODE, ins, po::Node) FIELD(NODE, outs, po::Node) FIELD(NODE, firstSubClassItem, po::Node) FIELD(NODE, subClassItemCount, po::Node)
OBJ(CMP, po::Component) MK(CMP, po::Component) FIELD(CMP, firstNode, po::Component) FIELD(CMP, nodeCount, po::Component)
OBJ(LV, List<vint>) MK(LV, List<vint>)
API(void, Sort, (POP* p), p->Sort())
API(void, InitNodes, (POP* p, vint n), p->InitNodes(n))
// items of an opaque type
struct DEP { bool operator()(const E& a, const E& b)const noexcept; };
typedef List<E> LE; typedef Group<E, E> GE;
OBJ(LE, LE) MK(LE, LE) OBJ(GE, GE) MK(GE, GE)
FIELD(GE, keys, GE)
API(void, InitWithGroup, (POP* p, const LE* i, const GE* g), p->InitWithGroup(*i, *g))
API(void, InitWithFunc, (POP* p, const LE* i, const DEP* f), p->InitWithFunc(*i, *f))
