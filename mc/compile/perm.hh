// Common part of every generated program of the permission check (C16); precompiled.
#pragma once
#include <Tecs.hh>
#include <type_traits>
#include <utility>

struct A { int v = 0; A() {} A(int x) : v(x) {} };
struct B { int v = 0; B() {} B(int x) : v(x) {} };
struct G { int v = 0; G() {} G(int x) : v(x) {} };
// not part of the instance
template<int N>
struct X { int v = 0; X() {} X(int x) : v(x) {} };
template<int N>
struct XG { int v = 0; XG() {} XG(int x) : v(x) {} };
TECS_GLOBAL_COMPONENT(G);
template<int N>
struct Tecs::is_global_component<XG<N>> : std::true_type {};

using namespace Tecs;
#ifdef PERM_WIDE // permission sets of more than one machine word
template<int I>
struct Filler { char v; };
template<typename S>
struct WideECS;
template<int... I>
struct WideECS<std::integer_sequence<int, I...>> { using T = ECS<A, Filler<I>..., B, G>; };
using E = WideECS<std::make_integer_sequence<int, 64>>::T;
#else
using E = ECS<A, B, G>;
#endif
using E2 = ECS<A, B>;      // another instance type
extern E ecs;
extern E2 ecs2;
extern A &refA;
extern B &refB;
extern G &refG;
template<int N>
extern X<N> &refX;
template<int N>
extern XG<N> &refXG;
extern Observer<E, EntityEvent> &obsE;
extern Observer<E, ComponentEvent<A>> &obsA;
extern Observer<E, ComponentEvent<G>> &obsG;
extern EntityEvent &evE;
extern ComponentEvent<A> &evA;
extern ComponentEvent<G> &evG;
template<typename T>
void take(T);
template<typename T>
void takeref(const T &);
