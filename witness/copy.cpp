// Instantiates copying a grid to a grid with other cell data and geometry, and
// checks how the public references of a grid can be used.
#include "tuple"
#include "array"
#include "type_traits"
#include "vector"
#include "mpi.h"
#include "dccrg.hpp"
#include "dccrg_cartesian_geometry.hpp"
#include "dccrg_stretched_cartesian_geometry.hpp"
#include "dccrg_no_geometry.hpp"

namespace witness {

struct Cell {
	int data = 0;
	std::tuple<void*, int, MPI_Datatype> get_mpi_datatype() {
		return std::make_tuple((void*) &(this->data), 1, MPI_INT);
	}
};

struct Other_Cell {
	double data = 0;
	std::tuple<void*, int, MPI_Datatype> get_mpi_datatype() {
		return std::make_tuple((void*) &(this->data), 1, MPI_DOUBLE);
	}
};

typedef dccrg::Dccrg<Cell, dccrg::Cartesian_Geometry> Grid;
typedef dccrg::Dccrg<Other_Cell, dccrg::Cartesian_Geometry> Other_Grid;

inline void use(const Other_Grid& other) {
	Grid copy(other);
	(void) copy;
}

}

template class dccrg::Dccrg<witness::Cell, dccrg::Cartesian_Geometry>;
