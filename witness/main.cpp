// Instantiates every member of the class templates of dccrg for analysis.
#include "tuple"
#include "array"
#include "vector"
#include "mpi.h"
#include "dccrg.hpp"
#include "dccrg_cartesian_geometry.hpp"
#include "dccrg_stretched_cartesian_geometry.hpp"
#include "dccrg_no_geometry.hpp"

namespace witness {

struct Cell {
	int data = 0;
	std::tuple<void*, int, MPI_Datatype> get_mpi_datatype() {
		return std::make_tuple((void*) &(this->data), 1, MPI_INT);
	}
};

typedef dccrg::Dccrg<Cell, dccrg::Cartesian_Geometry> Grid;

}

template class dccrg::Dccrg<witness::Cell, dccrg::Cartesian_Geometry>;

namespace witness {
// instantiates member templates that an explicit instantiation does not reach
inline void use(Grid& g, MPI_Comm comm) {
	std::array<uint64_t, 3> len{{1, 1, 1}};
	(void) len;
	(void) comm;
	Grid copy(g);
	(void) copy;
	for (const auto& cell: g.all_cells()) {
		for (const auto& neighbor: cell.neighbors_of) {
			(void) neighbor;
		}
	}
	(void) g.all_cells().cbegin();
	(void) g.all_cells().cend();
	(void) g.all_cells().begin()->neighbors_of.cbegin();
	(void) g.all_cells().begin()->neighbors_of.cend();
}
}
