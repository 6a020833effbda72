// Uses everything that users of dccrg may use, in every combination of kinds of
// cell data, geometry and additional items; only compiled, never run.
#include "array"
#include "complex"
#include "tuple"
#include "vector"
#include "mpi.h"
#include "dccrg.hpp"
#include "dccrg_cartesian_geometry.hpp"
#include "dccrg_stretched_cartesian_geometry.hpp"
#include "dccrg_no_geometry.hpp"

namespace api {

typedef std::tuple<void*, int, MPI_Datatype> Info;

// kinds of user data
struct Plain { int d = 0; Info get_mpi_datatype() { return std::make_tuple((void*) &d, 1, MPI_INT); } };
struct Plain_Const { int d = 0; Info get_mpi_datatype() const { return std::make_tuple((void*) &d, 1, MPI_INT); } };
struct Args { int d = 0; Info get_mpi_datatype(const uint64_t, const int, const int, const bool, const int) { return std::make_tuple((void*) &d, 1, MPI_INT); } };
struct Args_Const { int d = 0; Info get_mpi_datatype(const uint64_t, const int, const int, const bool, const int) const { return std::make_tuple((void*) &d, 1, MPI_INT); } };
struct Both { int d = 0;
	Info get_mpi_datatype() { return std::make_tuple((void*) &d, 1, MPI_INT); }
	Info get_mpi_datatype(const uint64_t, const int, const int, const bool, const int) { return std::make_tuple((void*) &d, 1, MPI_INT); } };
struct Both_Const { int d = 0;
	Info get_mpi_datatype() const { return std::make_tuple((void*) &d, 1, MPI_INT); }
	Info get_mpi_datatype(const uint64_t, const int, const int, const bool, const int) const { return std::make_tuple((void*) &d, 1, MPI_INT); } };

// additional data of cells and neighbors
struct Cell_Extra {
	bool flag = false;
	template<class Grid, class Cell_Item> static void update(const Grid& grid, Cell_Item& cell, const Cell_Extra&) { cell.flag = grid.mapping.get_refinement_level(cell.id) > 0; }
};
struct Neighbor_Extra {
	int level = 0;
	template<class Grid, class Cell_Item, class Neighbor_Item> static void update(const Grid& grid, const Cell_Item& cell, Neighbor_Item& neighbor, const int& hood, const Neighbor_Extra&) { neighbor.level = grid.mapping.get_refinement_level(neighbor.id) + int(cell.id) + hood; }
};

template<class Grid> void same(const Grid& a, const Grid& b);

// every form of use of the public interface
template<class Grid> void use(Grid& g, const Grid& cg, MPI_Comm comm)
{
	for (const auto& c: g.local_cells()) { (void) c.id; (void) c.data; for (const auto& n: c.neighbors_of) { (void) n.id; (void) n.data; (void) (n.x + n.y + n.z); } for (const auto& n: c.neighbors_to) { (void) n.id; } for (const auto& n: c.all_neighbors) { (void) n.id; } }
	for (const auto& c: g.inner_cells()) { (void) c.id; }
	for (const auto& c: g.outer_cells()) { (void) c.id; }
	for (const auto& c: g.remote_cells()) { (void) c.id; }
	for (const auto& c: g.all_cells()) { (void) c.id; }
	for (const auto& c: g.local_cells(1)) { (void) c.id; }
	for (const auto& c: g.inner_cells(1)) { (void) c.id; }
	for (const auto& c: g.outer_cells(1)) { (void) c.id; }
	for (const auto& c: g.remote_cells(1)) { (void) c.id; }
	for (const auto& c: g.all_cells(1)) { (void) c.id; }
	for (const auto& c: cg.cells) { (void) c.id; }
	for (const auto& n: cg.neighbors) { (void) n.id; }
	std::vector<std::array<int, 3>> offsets{{{1, 0, 0}}};
	(void) g.add_neighborhood(1, offsets);
	g.remove_neighborhood(1);
	(void) cg.get_neighbors_of(uint64_t(1));
	(void) cg.get_neighbors_to(uint64_t(1));
	(void) cg.get_remote_neighbors_of(uint64_t(1), 0);
	(void) cg.get_remote_neighbors_to(uint64_t(1), 0);
	(void) cg.get_face_neighbors_of(uint64_t(1));
	(void) cg.get_cells();
	(void) g[uint64_t(1)];
	(void) cg[uint64_t(1)];
	(void) g.refine_completely(1);
	(void) g.unrefine_completely(1);
	(void) g.dont_unrefine(1);
	(void) g.dont_refine(1);
	(void) g.stop_refining();
	(void) g.pin(1);
	(void) g.pin(1, 0);
	(void) g.unpin(1);
	g.balance_load();
	(void) g.get_removed_cells();
	g.clear_refined_unrefined_data();
	(void) comm;
	(void) g.geometry.get_center(1);
	(void) g.mapping.get_maximum_refinement_level();
	(void) g.topology.is_periodic(0);
	(void) g.length.get();
	const MPI_Comm c2 = cg.get_communicator();
	(void) c2;
}

// all ways of copying
template<class A, class B> void copy(const A& a) { B b(a); (void) b; }

#define USE(NAME, ...) \
	typedef __VA_ARGS__ NAME; \
	inline void use_##NAME(NAME& g, MPI_Comm comm) { use(g, g, comm); copy<NAME, NAME>(g); }

}

#define GRID(NAME, ...) template class dccrg::Dccrg<__VA_ARGS__>; namespace api { USE(NAME, dccrg::Dccrg<__VA_ARGS__>) }

#if KIND == 0
GRID(g0, api::Plain, dccrg::No_Geometry)
GRID(g1, api::Plain_Const, dccrg::Cartesian_Geometry)
GRID(g2, api::Args, dccrg::Stretched_Cartesian_Geometry)
GRID(g3, api::Args_Const, dccrg::No_Geometry)
namespace api {
inline void convert(const g0& a, const g3& b) { copy<g0, g3>(a); copy<g3, g0>(b); }
}
#elif KIND == 1
GRID(g4, api::Both, dccrg::Cartesian_Geometry)
GRID(g5, api::Both_Const, dccrg::Cartesian_Geometry)
GRID(g6, int, dccrg::Cartesian_Geometry)
GRID(g7, std::array<double, 4>, dccrg::No_Geometry)
#elif KIND == 2
GRID(g8, api::Plain, dccrg::Cartesian_Geometry, std::tuple<api::Cell_Extra>)
GRID(g9, api::Plain, dccrg::Cartesian_Geometry, std::tuple<>, std::tuple<api::Neighbor_Extra>)
GRID(g10, api::Plain, dccrg::No_Geometry, std::tuple<api::Cell_Extra>, std::tuple<api::Neighbor_Extra>)
#elif KIND == 3
namespace api {
template<class T> void info(T& t) { (void) dccrg::detail::get_cell_mpi_datatype(t, uint64_t(1), 0, 0, true, 0); std::array<T, 3> a; (void) dccrg::detail::get_cell_mpi_datatype(a, uint64_t(1), 0, 0, true, 0); }
inline void infos() {
	char a; info(a); signed char b; info(b); unsigned char c; info(c); short d; info(d); unsigned short e; info(e); int f; info(f); unsigned int g; info(g);
	long h; info(h); unsigned long i; info(i); long long j; info(j); unsigned long long k; info(k); float l; info(l); double m; info(m); long double n; info(n); wchar_t o; info(o);
	bool p; (void) dccrg::detail::get_cell_mpi_datatype(p, uint64_t(1), 0, 0, true, 0);
	Both q; (void) dccrg::detail::get_cell_mpi_datatype(q, uint64_t(1), 0, 0, true, 0);
	Both_Const r; (void) dccrg::detail::get_cell_mpi_datatype(r, uint64_t(1), 0, 0, true, 0);
	Plain s; (void) dccrg::detail::get_cell_mpi_datatype(s, uint64_t(1), 0, 0, true, 0);
	Plain_Const t; (void) dccrg::detail::get_cell_mpi_datatype(t, uint64_t(1), 0, 0, true, 0);
	Args u; (void) dccrg::detail::get_cell_mpi_datatype(u, uint64_t(1), 0, 0, true, 0);
	Args_Const v; (void) dccrg::detail::get_cell_mpi_datatype(v, uint64_t(1), 0, 0, true, 0);
#ifdef DCCRG_USER_COMPLEX
	std::complex<float> w; info(w); std::complex<double> x; info(x); std::complex<long double> y; info(y);
#endif
}
}
#endif
