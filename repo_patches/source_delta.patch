From a9916cdf8de78a12e597e16249642e0870ab7c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:18 +0000
Subject: [PATCH 01/20] fix: reject grid lengths whose number of level 0 cells
 overflows uint64_t

---
 dccrg_length.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dccrg_length.hpp b/dccrg_length.hpp
index 5eabe29..25c5056 100644
--- a/dccrg_length.hpp
+++ b/dccrg_length.hpp
@@ -114,8 +114,8 @@ public:
 
 		const double max_number_of_initial_cells
 			= double(this->length[0])
-			+ double(this->length[1])
-			+ double(this->length[2]);
+			* double(this->length[1])
+			* double(this->length[2]);
 
 		if (max_number_of_initial_cells > double(~uint64_t(0))) {
 			std::cerr
-- 
2.43.0


From 02639c3bf9c52d0f9bafcf064e691411f9fde826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:18 +0000
Subject: [PATCH 02/20] fix: children of a cell outside of the mapping are
 error cells

---
 dccrg_mapping.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dccrg_mapping.hpp b/dccrg_mapping.hpp
index 5c20904..845b86d 100644
--- a/dccrg_mapping.hpp
+++ b/dccrg_mapping.hpp
@@ -402,7 +402,7 @@ public:
 
 		// given cell cannot have children
 		int refinement_level = this->get_refinement_level(cell);
-		if (refinement_level >= this->get_maximum_refinement_level()) {
+		if (refinement_level < 0 || refinement_level >= this->get_maximum_refinement_level()) {
 			return children;
 		}
 
-- 
2.43.0


From 25049328719ba94dfdb4fff4dd4cdc339cd14f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:18 +0000
Subject: [PATCH 03/20] fix: copied mapping must refer to its own grid length

---
 dccrg_mapping.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dccrg_mapping.hpp b/dccrg_mapping.hpp
index 845b86d..aa71a6b 100644
--- a/dccrg_mapping.hpp
+++ b/dccrg_mapping.hpp
@@ -96,6 +96,18 @@ public:
 	}
 
 
+	/*!
+	Creates a copy of given mapping which refers to its own length.
+	*/
+	Mapping(const Mapping& other) :
+		length_rw(other.length_rw),
+		length(length_rw)
+	{
+		this->max_refinement_level = other.max_refinement_level;
+		this->last_cell = other.last_cell;
+	}
+
+
 	/*!
 	Sets the grid to a default constructed state.
 	*/
-- 
2.43.0


From 95be27504a4f406649901d5dc6a6b9a4f707ccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:15 +0000
Subject: [PATCH 04/20] fix: get_remote_neighbors_of and _to did not compile
 when used

---
 dccrg.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 8ae2ee8..2b74b63 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -3256,19 +3256,19 @@ public:
 			return ret_val;
 		}
 
-		const std::vector<uint64_t>& neighbors_ref
+		const auto& neighbors_ref
 			= (neighborhood_id == default_neighborhood_id)
 			? this->neighbors_of.at(cell)
 			: this->user_neigh_of.at(neighborhood_id).at(cell);
 
 		for(const auto& neighbor: neighbors_ref) {
 
-			if (neighbor == error_cell) {
+			if (neighbor.first == error_cell) {
 				continue;
 			}
 
-			if (this->cell_process.at(neighbor) != this->rank) {
-				ret_val.push_back(neighbor);
+			if (this->cell_process.at(neighbor.first) != this->rank) {
+				ret_val.push_back(neighbor.first);
 			}
 		}
 
@@ -3317,19 +3317,19 @@ public:
 			return ret_val;
 		}
 
-		const std::vector<uint64_t>& neighbors_ref
+		const auto& neighbors_ref
 			= (neighborhood_id == default_neighborhood_id)
 			? this->neighbors_to.at(cell)
 			: this->user_neigh_to.at(neighborhood_id).at(cell);
 
 		for(const auto& neighbor: neighbors_ref) {
 
-			if (neighbor == error_cell) {
+			if (neighbor.first == error_cell) {
 				continue;
 			}
 
-			if (this->cell_process.at(neighbor) != this->rank) {
-				ret_val.push_back(neighbor);
+			if (this->cell_process.at(neighbor.first) != this->rank) {
+				ret_val.push_back(neighbor.first);
 			}
 		}
 
-- 
2.43.0


From 5ac2ff906607c0990efd2becac5df6b051f09c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:15 +0000
Subject: [PATCH 05/20] fix: remove_neighborhood must forget all_cells of the
 neighborhood

---
 dccrg.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dccrg.hpp b/dccrg.hpp
index 2b74b63..653ca82 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -6762,6 +6762,7 @@ public:
 		this->outer_cells_user.erase(neighborhood_id);
 		this->local_cells_user.erase(neighborhood_id);
 		this->remote_cells_user.erase(neighborhood_id);
+		this->all_cells_user.erase(neighborhood_id);
 		return *this;
 	}
 
-- 
2.43.0


From 5f9f26031f6c2588f644a4b6ff33dca9045f17ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:16 +0000
Subject: [PATCH 06/20] fix: check the result of committing the send datatype

---
 dccrg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 653ca82..d2a798d 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -11142,7 +11142,7 @@ private:
 					abort();
 				}
 
-				MPI_Type_commit(&send_datatype);
+				ret_val = MPI_Type_commit(&send_datatype);
 				if (ret_val != MPI_SUCCESS) {
 					std::cerr << __FILE__ << ":" << __LINE__
 						<< " MPI_Type_commit failed for process " << this->rank
-- 
2.43.0


From c7c768d5cba4f649d490759f426a0c73ae574821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:16 +0000
Subject: [PATCH 07/20] fix: update_copies_of_remote_neighbors succeeds with
 default neighborhood

---
 dccrg.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index d2a798d..fade7de 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -998,8 +998,11 @@ public:
 
 		bool ret_val = true;
 
-		if (this->user_hood_of.count(neighborhood_id) == 0) {
-			ret_val = false;
+		if (
+			neighborhood_id != default_neighborhood_id
+			and this->user_hood_of.count(neighborhood_id) == 0
+		) {
+			return false;
 		}
 
 		if (!this->start_remote_neighbor_copy_updates(neighborhood_id)) {
-- 
2.43.0


From 9d37c42cc0c90e8557c256c8f5954b5b6c044bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:40 +0000
Subject: [PATCH 08/20] fix: stretched geometry index of a coordinate at the
 start of the grid

---
 dccrg_stretched_cartesian_geometry.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dccrg_stretched_cartesian_geometry.hpp b/dccrg_stretched_cartesian_geometry.hpp
index c27f700..a7c7bf6 100644
--- a/dccrg_stretched_cartesian_geometry.hpp
+++ b/dccrg_stretched_cartesian_geometry.hpp
@@ -582,7 +582,10 @@ public:
 				while (current_coords[coord_start_index] < coordinate[dimension]) {
 					coord_start_index++;
 				}
-				coord_start_index--;
+				// the first coordinate belongs to the first cell
+				if (coord_start_index > 0) {
+					coord_start_index--;
+				}
 
 				// length of an index in this level 0 cell
 				const double length_of_index
@@ -597,7 +600,9 @@ public:
 				) {
 					index_offset++;
 				}
-				index_offset--;
+				if (index_offset > 0) {
+					index_offset--;
+				}
 
 				ret_val[dimension] = coord_start_index * level_0_length_in_indices + index_offset;
 			}
-- 
2.43.0


From 3164dffe363031406bc1fdffb364bf14e9355bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:40 +0000
Subject: [PATCH 09/20] fix: stretched geometry indices of coordinates outside
 of a periodic grid

---
 dccrg_stretched_cartesian_geometry.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dccrg_stretched_cartesian_geometry.hpp b/dccrg_stretched_cartesian_geometry.hpp
index a7c7bf6..ea3689f 100644
--- a/dccrg_stretched_cartesian_geometry.hpp
+++ b/dccrg_stretched_cartesian_geometry.hpp
@@ -555,7 +555,7 @@ public:
 	dimension if the grid is not periodic in that dimension.
 	*/
 	Types<3>::indices_t get_indices(
-		const std::array<double, 3>& coordinate
+		const std::array<double, 3>& given_coordinate
 	) const {
 		Types<3>::indices_t ret_val = {{
 			error_index,
@@ -565,7 +565,8 @@ public:
 
 		const std::array<double, 3>
 			grid_start = this->get_start(),
-			grid_end = this->get_end();
+			grid_end = this->get_end(),
+			coordinate = this->get_real_coordinate(given_coordinate);
 
 		const int max_ref_lvl = this->mapping.get_maximum_refinement_level();
 		const uint64_t level_0_length_in_indices = uint64_t(1) << max_ref_lvl;
-- 
2.43.0


From da4421df8ef229f9b43a7c11a67c3eaac67b603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:33 +0000
Subject: [PATCH 10/20] fix: starting remote updates with an unknown
 neighborhood returns false

---
 dccrg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index fade7de..d74ff19 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -5194,7 +5194,7 @@ public:
 			}
 			#endif
 
-			ret_val = false;
+			return false;
 		}
 
 		#ifdef DEBUG
@@ -5305,7 +5305,7 @@ public:
 			}
 			#endif
 
-			ret_val = false;
+			return false;
 		}
 
 		#ifdef DEBUG
-- 
2.43.0


From 6925b8c059623a3325c07437dca5ab11f518bf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:28 +0000
Subject: [PATCH 11/20] fix: saved cell data overlapped with derived datatypes
 of count > 1

---
 dccrg.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index d74ff19..3f153c1 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -1506,11 +1506,7 @@ public:
 				abort();
 			}
 
-			if (Is_Named_Datatype()(file_datatypes[i])) {
-				current_byte_offset += counts[i] * (uint64_t) current_bytes;
-			} else {
-				current_byte_offset += (uint64_t) current_bytes;
-			}
+			current_byte_offset += counts[i] * (uint64_t) current_bytes;
 		}
 
 		// tell everyone how many bytes everyone will write
-- 
2.43.0


From de8798dfe51aeab6a5c2ea84a4a5a5c192d6b620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:28 +0000
Subject: [PATCH 12/20] fix: continued loading skipped too little data with
 datatype count > 1

---
 dccrg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 3f153c1..51f68ff 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -2298,7 +2298,7 @@ public:
 					abort();
 				}
 
-				this->cells_and_data_displacements[i].second += size_in_bytes;
+				this->cells_and_data_displacements[i].second += counts[i] * (uint64_t) size_in_bytes;
 			}
 
 			ret_val = MPI_Type_create_struct(
-- 
2.43.0


From cc62291d289ab44760ed00b23d8ace39093f2983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:37 +0000
Subject: [PATCH 13/20] fix: free file datatypes of cells when loading grid
 data

---
 dccrg.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dccrg.hpp b/dccrg.hpp
index 51f68ff..07d066f 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -2315,6 +2315,20 @@ public:
 					<< std::endl;
 				abort();
 			}
+
+			// cell datatypes aren't needed after creating the one for file view
+			for (MPI_Datatype& datatype: file_datatypes) {
+				if (!Is_Named_Datatype()(datatype)) {
+					ret_val = MPI_Type_free(&datatype);
+					if (ret_val != MPI_SUCCESS) {
+						std::cerr << __FILE__ << ":" << __LINE__
+							<< " Process " << this->rank
+							<< " Couldn't free datatype: " << Error_String()(ret_val)
+							<< std::endl;
+						abort();
+					}
+				}
+			}
 		}
 
 		ret_val = MPI_Type_commit(&file_datatype);
-- 
2.43.0


From 9fd52ba63996945d2aab569302ba6ac3b9040d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:38 +0000
Subject: [PATCH 14/20] fix: check results of datatype operations when
 transferring and storing cell data

---
 dccrg.hpp | 45 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 07d066f..adbc9ce 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -1500,7 +1500,14 @@ public:
 			file_displacements[i] += current_byte_offset;
 
 			int current_bytes;
-			MPI_Type_size(file_datatypes[i], &current_bytes);
+			ret_val = MPI_Type_size(file_datatypes[i], &current_bytes);
+			if (ret_val != MPI_SUCCESS) {
+				std::cerr << __FILE__ << ":" << __LINE__
+					<< " Process " << this->rank
+					<< " Couldn't get size of datatype: " << Error_String()(ret_val)
+					<< std::endl;
+				abort();
+			}
 			if (current_bytes < 0) {
 				std::cerr << __FILE__ << ":" << __LINE__ << std::endl;
 				abort();
@@ -2221,7 +2228,14 @@ public:
 
 		if (number_of_cells == 0) {
 
-			MPI_Type_contiguous(0, MPI_BYTE, &file_datatype);
+			ret_val = MPI_Type_contiguous(0, MPI_BYTE, &file_datatype);
+			if (ret_val != MPI_SUCCESS) {
+				std::cerr << __FILE__ << ":" << __LINE__
+					<< " Process " << this->rank
+					<< " Couldn't create datatype for file view: " << Error_String()(ret_val)
+					<< std::endl;
+				abort();
+			}
 
 		} else {
 
@@ -2361,7 +2375,14 @@ public:
 
 		if (number_of_cells == 0) {
 
-			MPI_Type_contiguous(0, MPI_BYTE, &memory_datatype);
+			ret_val = MPI_Type_contiguous(0, MPI_BYTE, &memory_datatype);
+			if (ret_val != MPI_SUCCESS) {
+				std::cerr << __FILE__ << ":" << __LINE__
+					<< " Process " << this->rank
+					<< " Couldn't create datatype for local cells: " << Error_String()(ret_val)
+					<< std::endl;
+				abort();
+			}
 			if (MPI_Type_commit(&memory_datatype) != MPI_SUCCESS) {
 				std::cerr << __FILE__ << ":" << __LINE__
 					<< " Process " << this->rank
@@ -10983,7 +11004,14 @@ private:
 					abort();
 				}
 
-				MPI_Type_free(&receive_datatype);
+				ret_val = MPI_Type_free(&receive_datatype);
+				if (ret_val != MPI_SUCCESS) {
+					std::cerr << __FILE__ << ":" << __LINE__
+						<< " Process " << this->rank
+						<< " Couldn't free datatype: " << Error_String()(ret_val)
+						<< std::endl;
+					abort();
+				}
 				for (auto& type: datatypes) {
 					if (!Is_Named_Datatype()(type)) {
 						ret_val = MPI_Type_free(&type);
@@ -11184,7 +11212,14 @@ private:
 					abort();
 				}
 
-				MPI_Type_free(&send_datatype);
+				ret_val = MPI_Type_free(&send_datatype);
+				if (ret_val != MPI_SUCCESS) {
+					std::cerr << __FILE__ << ":" << __LINE__
+						<< " Process " << this->rank
+						<< " Couldn't free datatype: " << Error_String()(ret_val)
+						<< std::endl;
+					abort();
+				}
 				for (auto& type: datatypes) {
 					if (!Is_Named_Datatype()(type)) {
 						ret_val = MPI_Type_free(&type);
-- 
2.43.0


From 982b9fe5e4e89d73d473c204fdce40d8bd658664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:49 +0000
Subject: [PATCH 15/20] fix: iterators of a loaded grid without refined cells
 were empty

---
 dccrg.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/dccrg.hpp b/dccrg.hpp
index adbc9ce..193e0f3 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -2075,6 +2075,26 @@ public:
 			return false;
 		}
 
+		this->allocate_copies_of_remote_neighbors();
+
+		try {
+			this->update_cell_pointers(
+				this->cells_rw,
+				this->neighbors_rw,
+				this->inner_cells_default,
+				this->outer_cells_default,
+				this->local_cells_default,
+				this->remote_cells_default,
+				this->all_cells_default,
+				default_neighborhood_id
+			);
+		} catch (const std::exception& e) {
+			throw std::runtime_error(
+				"\n" __FILE__ "(" + std::to_string(__LINE__) + "): "
+				+ "Couldn't update cell pointers: " + e.what()
+			);
+		}
+
 		// read the total number of cells in the file
 		uint64_t total_number_of_cells = 0;
 		ret_val = MPI_File_read_at_all(
-- 
2.43.0


From 317441ce85efce24367ae7375e7674d7125bbb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:55 +0000
Subject: [PATCH 16/20] fix: pinning a cell where it is already pinned must
 override a pending request

---
 dccrg.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dccrg.hpp b/dccrg.hpp
index 193e0f3..023882e 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -6083,6 +6083,8 @@ public:
 		// do nothing if the request already exists
 		if (this->pin_requests.count(cell) > 0
 		&& (int) this->pin_requests.at(cell) == process) {
+			// a later request overrides a pending one
+			this->new_pin_requests.erase(cell);
 			return true;
 		}
 
-- 
2.43.0


From 9e14a5c04ac34e4255c839dccb485ff147326373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:38 +0000
Subject: [PATCH 17/20] fix: refuse a negative maximum refinement level of
 mapping

---
 dccrg_mapping.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dccrg_mapping.hpp b/dccrg_mapping.hpp
index aa71a6b..0a8e524 100644
--- a/dccrg_mapping.hpp
+++ b/dccrg_mapping.hpp
@@ -148,7 +148,10 @@ public:
 	*/
 	bool set_maximum_refinement_level(const int given_refinement_level)
 	{
-		if (given_refinement_level <= this->get_maximum_possible_refinement_level()) {
+		if (
+			given_refinement_level >= 0
+			and given_refinement_level <= this->get_maximum_possible_refinement_level()
+		) {
 			this->max_refinement_level = given_refinement_level;
 			this->update_last_cell();
 			return true;
-- 
2.43.0


From d63e1f31fd019f475b1730c6b27d675b0d685d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:53 +0000
Subject: [PATCH 18/20] fix: refuse a grid length in which cells of current
 maximum refinement level don't fit

---
 dccrg_mapping.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/dccrg_mapping.hpp b/dccrg_mapping.hpp
index 0a8e524..3560f5f 100644
--- a/dccrg_mapping.hpp
+++ b/dccrg_mapping.hpp
@@ -118,13 +118,25 @@ public:
 	}
 
 
-	//! see Grid_Length::set_length()
+	/*!
+	see Grid_Length::set_length()
+
+	Also returns false and does nothing if cells of current
+	maximum refinement level wouldn't fit in a grid of given length.
+	*/
 	bool set_length(const std::array<uint64_t, 3>& given_length)
 	{
+		const std::array<uint64_t, 3> old_length = this->length.get();
+
 		if (!this->length_rw.set(given_length)) {
 			return false;
 		}
 
+		if (this->max_refinement_level > this->get_maximum_possible_refinement_level()) {
+			this->length_rw.set(old_length);
+			return false;
+		}
+
 		this->update_last_cell();
 
 		return true;
@@ -551,6 +563,9 @@ public:
 		}
 		offset += sizeof(Grid_Length::type);
 
+		// old maximum refinement level doesn't limit new length
+		this->set_maximum_refinement_level(0);
+
 		if (!this->set_length(length)) {
 			std::cerr << __FILE__ << ":" << __LINE__
 				<< " Couldn't set length of grid"
@@ -597,6 +612,9 @@ public:
 			return false;
 		}
 
+		// old maximum refinement level doesn't limit new length
+		this->set_maximum_refinement_level(0);
+
 		if (!this->set_length(length)) {
 			std::cerr << __FILE__ << ":" << __LINE__
 				<< " Couldn't set length of grid"
-- 
2.43.0


From ec3059003c5f5f56ab40752eb16dca25efa1b202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:53 +0000
Subject: [PATCH 19/20] fix: geometry has no center at indices just outside of
 the grid

---
 dccrg_cartesian_geometry.hpp | 6 +++---
 dccrg_no_geometry.hpp        | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/dccrg_cartesian_geometry.hpp b/dccrg_cartesian_geometry.hpp
index 233e5ab..48d9f7e 100644
--- a/dccrg_cartesian_geometry.hpp
+++ b/dccrg_cartesian_geometry.hpp
@@ -448,9 +448,9 @@ public:
 		}};
 
 		if (
-			index[0] > max_index[0]
-			|| index[1] > max_index[1]
-			|| index[2] > max_index[2]
+			index[0] >= max_index[0]
+			|| index[1] >= max_index[1]
+			|| index[2] >= max_index[2]
 		) {
 			return error_val;
 		}
diff --git a/dccrg_no_geometry.hpp b/dccrg_no_geometry.hpp
index 481e13c..c79fa4c 100644
--- a/dccrg_no_geometry.hpp
+++ b/dccrg_no_geometry.hpp
@@ -336,9 +336,9 @@ public:
 		}};
 
 		if (
-			index[0] > max_index[0]
-			|| index[1] > max_index[1]
-			|| index[2] > max_index[2]
+			index[0] >= max_index[0]
+			|| index[1] >= max_index[1]
+			|| index[2] >= max_index[2]
 		) {
 			return error_val;
 		}
-- 
2.43.0


From 79d919558d914b7bcd2a8b929f1da1cce22dc878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:42 +0000
Subject: [PATCH 20/20] fix: load balancing of a copied grid must use its own
 cells

---
 dccrg.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 023882e..726fb7c 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -416,6 +416,8 @@ public:
 
 		#ifndef DCCRG_NO_LB
 		this->zoltan = Zoltan_Copy(other.get_zoltan());
+		// don't use data of the other grid when balancing load
+		this->set_zoltan_callbacks();
 		#endif
 
 		// default construct Other_Cell_Data of local cells
@@ -7970,7 +7972,23 @@ private:
 		Zoltan_Set_Param(this->zoltan, "LB_METHOD", this->load_balancing_method.c_str());
 		Zoltan_Set_Param(this->zoltan, "REMAP", "1");
 
-		// set the grids callback functions in Zoltan
+		this->set_zoltan_callbacks();
+
+		return true;
+		#else
+		return false;
+		#endif // ifndef DCCRG_NO_LB
+	}
+
+
+	/*!
+	Makes Zoltan of this grid use data of this grid.
+
+	Does nothing if DCCRG_NO_LB is defined when compiling.
+	*/
+	void set_zoltan_callbacks()
+	{
+		#ifndef DCCRG_NO_LB
 		Zoltan_Set_Num_Obj_Fn(
 			this->zoltan,
 			&Dccrg<
@@ -8113,10 +8131,6 @@ private:
 			>::set_partitioning_options,
 			this
 		);
-
-		return true;
-		#else
-		return false;
 		#endif // ifndef DCCRG_NO_LB
 	}
 
-- 
2.43.0

