D = "dccrg.hpp"
BUGS = []


def bug(id, expect, *edits):
    BUGS.append({"id": id, "expect": expect.split(","), "edits": [e if len(e) == 3 else (D,) + e for e in edits]})


# --- C01
bug("c01-balance-no-faceneigh", "C01", (("		this->update_neighbors_();\n\n		this->update_neighbors();", 1), "		this->update_neighbors();"))
bug("c01-refine-usernb-only-local", "C01", (("		for (const auto& i: this->cell_process) {\n			for (const auto& j: this->user_hood_of) {", 2),
    "		for (const auto& i: this->cell_data) {\n			for (const auto& j: this->user_hood_of) {"))
bug("c01-balance-userremote-first-only", "C01", ("			this->update_user_remote_neighbor_info(item->first);\n		}\n\n		this->recalculate",
    "			this->update_user_remote_neighbor_info(item->first);\n			if (this->comm_size == 1) break;\n		}\n\n		this->recalculate"))
bug("c01-boundary-skip-to", "C01", ("			if (this->cell_process.at(neighbor_to) != this->rank) {\n				this->local_cells_on_process_boundary.insert(cell);",
    "			if (this->cell_process.at(neighbor_to) != this->rank and this->neighbors_of.at(cell).size() > 0) {\n				this->local_cells_on_process_boundary.insert(cell);"))
bug("c01-pointers-before-copies", "C01", (("		this->allocate_copies_of_remote_neighbors();\n\n		try {\n			this->update_cell_pointers(", 2), "		try {\n			this->update_cell_pointers("),
    ("		for (const auto& item: this->user_hood_of) {\n			this->update_cell_pointers_user(item.first);\n		}\n\n		return new_cells;",
     "		for (const auto& item: this->user_hood_of) {\n			this->update_cell_pointers_user(item.first);\n		}\n		this->allocate_copies_of_remote_neighbors();\n\n		return new_cells;"))
bug("c01-erase-after-update", "C01", ("		// free user data of cells removed from this process\n		for (const uint64_t removed_cell: this->removed_cells) {\n			this->cell_data.erase(removed_cell);\n		}\n", ""),
    ("		this->recalculate_neighbor_update_send_receive_lists();\n\n		this->allocate", "		this->recalculate_neighbor_update_send_receive_lists();\n		for (const uint64_t removed_cell: this->removed_cells) {\n			this->cell_data.erase(removed_cell);\n		}\n\n		this->allocate"))
bug("c01-early-return-refine", "C01", ("		this->cells_to_refine.clear();\n		this->cells_to_unrefine.clear();\n\n		this->update_neighbors_();",
    "		const bool none = this->cells_to_refine.size() == 0;\n		this->cells_to_refine.clear();\n		this->cells_to_unrefine.clear();\n		if (none) return new_cells;\n\n		this->update_neighbors_();"))
bug("c01-nocleared-user", "C01", (("			this->user_neigh_of.at(h.first).clear();\n			this->user_neigh_to.at(h.first).clear();", 2), "			this->user_neigh_of.at(h.first).clear();"))
# --- C02
bug("c02-early-return-local", "C02", ("		std::vector<std::vector<uint64_t>> all_new_pinned_cells, all_new_pinned_processes;\n",
    "		if (this->new_pin_requests.size() == 0) return;\n		std::vector<std::vector<uint64_t>> all_new_pinned_cells, all_new_pinned_processes;\n"))
bug("c02-loop-local", "C02", ("		while (All_Reduce()(new_refines.size(), this->comm) > 0) {", "		while (new_refines.size() > 0) {"))
bug("c02-write-all-skipped", "C02", ("			ret_val = MPI_File_write_at_all(\n				outfile,\n				0,\n				&temp,", "			ret_val = MPI_File_write_at(\n				outfile,\n				0,\n				&temp,"))
bug("c02-donts-local", "C02", ("			this->all_to_all_set(new_donts);\n", "			if (donts.size() > 0 or new_donts.size() > 0) this->all_to_all_set(new_donts);\n"))
# --- C03
bug("c03-local-added", "C03", ("			for (const uint64_t created_cell: all_added_cells.at(cell_creator)) {\n				this->cell_process.at(created_cell) = cell_creator;",
    "			if (cell_creator != this->rank and this->added_cells.size() == 0) continue;\n			for (const uint64_t created_cell: all_added_cells.at(cell_creator)) {\n				this->cell_process.at(created_cell) = cell_creator;"))
bug("c03-refine-only-mine", "C03", ("				this->cell_process[child] = process_of_refined;\n\n				if (this->rank == process_of_refined) {\n",
    "				if (this->rank == process_of_refined) {\n				this->cell_process[child] = process_of_refined;\n"))
bug("c03-pin-direct", "C03", ("		this->new_pin_requests.erase(cell);\n", "		this->pin_requests.erase(cell);\n"))
# --- C04
bug("c04-user-sort", "C04", ("			std::sort(current_cells_to_send.begin(), current_cells_to_send.end());\n", ""))
bug("c04-tag-offset", "C04", ("				const int tag = (int) i + 1;\n				if (tag > (int) this->max_tag) {\n					std::cerr << __FILE__ << \":\" << __LINE__\n						<< \" Process \" << this->rank\n						<< \": Message tag would overflow for receiving cell \" << sender", "				const int tag = (int) i;\n				if (tag > (int) this->max_tag) {\n					std::cerr << __FILE__ << \":\" << __LINE__\n						<< \" Process \" << this->rank\n						<< \": Message tag would overflow for receiving cell \" << sender"))
bug("c04-pin-recv-cond", "C04", ("				this->cells_to_receive[process_of_unrefined].push_back(", "				if (process_of_unrefined > process_of_parent) this->cells_to_receive[process_of_unrefined].push_back("))
bug("c04-send-default-list", "C04", ("start_user_data_sends(\n			this->user_neigh_cells_to_send.at(neighborhood_id)", "start_user_data_sends(\n			this->cells_to_send"))
bug("c04-recv-wrong-id", "C04", ("this->start_user_data_receives(destination, receive_item, neighborhood_id)", "this->start_user_data_receives(destination, receive_item, default_neighborhood_id)"))
# --- C05
bug("c05-erase-before-wait", "C05", ("		this->wait_user_data_transfer_sends();\n\n		// now can remove user data of unrefined cells\n		for (const uint64_t unrefined: all_to_unrefine) {\n			this->cell_data.erase(unrefined);\n		}\n",
    "		// now can remove user data of unrefined cells\n		for (const uint64_t unrefined: all_to_unrefine) {\n			this->cell_data.erase(unrefined);\n		}\n		this->wait_user_data_transfer_sends();\n"))
bug("c05-nofree-memtype-empty", "C05", ("		if (!Is_Named_Datatype()(memory_datatype)) {\n			ret_val = MPI_Type_free", "		if (number_of_cells > 1 and !Is_Named_Datatype()(memory_datatype)) {\n			ret_val = MPI_Type_free"))
bug("c05-free-named", "C05", ("				if (!Is_Named_Datatype()(datatype)) {\n					ret_val = MPI_Type_free(&datatype);", "				if (true) {\n					ret_val = MPI_Type_free(&datatype);"))
bug("c05-commit-missing", "C05", ("ret_val = MPI_Type_commit(&memory_datatype);", "ret_val = MPI_SUCCESS;"))
bug("c05-wait-skip-sends", "C05", (("		return this->wait_user_data_transfer_sends();\n", 1), "		if (this->cells_to_send.size() == 0) return true;\n		return this->wait_user_data_transfer_sends();\n"))
bug("c05-close-only-root", "C05", (("		ret_val = MPI_File_close(&outfile);", 1), "		if (number_of_cells == 0) return true;\n		ret_val = MPI_File_close(&outfile);"))
bug("c05-start-clears", "C05", ("		if (!this->start_user_data_receives(destination, receive_item, neighborhood_id)) {", "		this->send_requests.clear();\n		if (!this->start_user_data_receives(destination, receive_item, neighborhood_id)) {"))
# --- C06
bug("c06-overwrite", "C06", ("		ret_val = MPI_File_close(&outfile);\n", "		ret_val = MPI_File_close(&outfile);\n		ret_val = MPI_SUCCESS;\n"))
bug("c06-discard-topology", "C06", ("			if (!this->topology.write(outfile, offset)) {", "			this->topology.write(outfile, offset);\n			if (offset < 0) {"))
bug("c06-return-true", "C06", (("					<< \" Couldn't write geometry to file \" << name\n					<< \": \" << Error_String()(ret_val)\n					<< std::endl;\n				return false;", 1), "					<< \" Couldn't write geometry to file \" << name\n					<< \": \" << Error_String()(ret_val)\n					<< std::endl;"))
bug("c06-inverted", "C06", (("		if (ret_val != MPI_SUCCESS) {", 3), "		if (ret_val == MPI_ERR_OTHER) {"))

# --- C07
S, C, T, M = "dccrg_stretched_cartesian_geometry.hpp", "dccrg_cartesian_geometry.hpp", "dccrg_topology.hpp", "dccrg_mapping.hpp"
bug("c07-header-count", "C07", ("			header_size *= std::get<1>(header);\n", ""))
bug("c07-list-start", "C07", ("			} else if (write_cell_ids or write_data_offsets) {\n				cell_list_start += all_number_of_cells[i] * sizeof(uint64_t);", "			} else if (write_cell_ids) {\n				cell_list_start += all_number_of_cells[i] * sizeof(uint64_t);"))
bug("c07-offset-count", "C07", ("			current_byte_offset += counts[i] * (uint64_t) current_bytes;", "			current_byte_offset += (uint64_t) current_bytes;"))
bug("c07-data-start", "C07", ("		if (not write_data_offsets) {\n			cell_data_start -= total_number_of_cells * sizeof(uint64_t);\n		}\n", ""))
bug("c07-lower-ranks", "C07", ("		for (size_t i = 0; i < (size_t) this->rank; i++) {\n			cell_data_start += all_number_of_bytes[i];", "		for (size_t i = 0; i <= (size_t) this->rank; i++) {\n			cell_data_start += all_number_of_bytes[i];"))
bug("c07-continue-size", "C07", ("this->cells_and_data_displacements[i].second += counts[i] * ", "this->cells_and_data_displacements[i].second += "))
bug("c07-stretched-size", "C07", (S, "			ret_val += this->parameters.coordinates[dimension].size() * sizeof(double);", "			ret_val += (this->parameters.coordinates[dimension].size() - 1) * sizeof(double);"))
bug("c07-cart-swap", "C07", (C, "read_parameters.start.data()", "read_parameters.level_0_cell_length.data()"), (C, ("read_parameters.level_0_cell_length.data()", 2), "read_parameters.start.data()"))
bug("c07-topology-bit", "C07", (T, "		if (this->is_periodic(2)) {\n			data[2]", "		if (this->is_periodic(1)) {\n			data[2]"))
bug("c07-geomid", "C07", (C, ("		if (read_geometry_id != Cartesian_Geometry::geometry_id) {", 2), "		if (read_geometry_id != Cartesian_Geometry::geometry_id and read_geometry_id != 0) {"))
bug("c07-pair", "C07", ("				offset = all_cells_and_data_displacements[i + 1];", "				offset = all_cells_and_data_displacements[i];"))
bug("c07-neighlen", "C07", ("		this->neighborhood_length = neighborhood_length;\n		this->initialize_neighborhoods();\n", "		this->initialize_neighborhoods();\n		this->neighborhood_length = neighborhood_length;\n"))
bug("c08-veto-equal", "C08", ("this->mapping.get_refinement_level(neighbor.first) < refinement_level\n				and", "this->mapping.get_refinement_level(neighbor.first) <= refinement_level\n				and"))
bug("c08-nomax", "C08", ("		if (refinement_level == this->mapping.get_maximum_refinement_level()) {\n			this->dont_unrefine(cell);\n			return true;", "		if (refinement_level == this->mapping.get_maximum_refinement_level()) {\n			return true;"))
bug("c08-cancel-lt", "C08", (("if (this->mapping.get_refinement_level(neighbor_i.first) <= refinement_level) {", 2), "if (this->mapping.get_refinement_level(neighbor_i.first) < refinement_level) {"))
bug("c08-sib", "C08", ("			if (this->cells_to_refine.count(sibling) > 0\n			|| this->cells_not_to_unrefine.count(sibling) > 0) {\n				return true;", "			if (this->cells_to_refine.count(sibling) > 0) {\n				return true;"))
bug("c08-dont-erase", "C08", ("		// override local unrefines\n		for(const auto& sibling: siblings) {\n			this->cells_to_unrefine.erase(sibling);\n		}\n\n		this->cells_not_to_unrefine.insert(cell);", "		// override local unrefine\n		this->cells_to_unrefine.erase(cell);\n\n		this->cells_not_to_unrefine.insert(cell);"))
bug("c08-order", "C08", ("		this->induce_refines();\n\n		this->override_unrefines();", "		this->override_unrefines();\n\n		this->induce_refines();"))
bug("c08-induce-boundary", "C08", ("					if (this->mapping.get_refinement_level(neighbor_to) < this->mapping.get_refinement_level(refined)) {", "					if (this->mapping.get_refinement_level(neighbor_to) + 1 < this->mapping.get_refinement_level(refined)) {"))
bug("c08-induce-frontier", "C08", ("			new_refines.insert(\n				new_refines.end(),\n				unique_induced_refines.begin(),\n				unique_induced_refines.end()\n			);\n", ""))
bug("c08-induce-once", "C08", ("		while (All_Reduce()(new_refines.size(), this->comm) > 0) {\n\n			std::vector<std::vector<uint64_t>> all_new_refines;", "		if (All_Reduce()(new_refines.size(), this->comm) > 0) {\n\n			std::vector<std::vector<uint64_t>> all_new_refines;"))
bug("c08-dont-to", "C08", ("					for (const auto& n: *neighs_to) {", "					for (const auto& n: *neighs_of) {"))
bug("c08-dont-level", "C08", ("					if (neigh_ref_lvl > ref_lvl) {\n						new_donts", "					if (neigh_ref_lvl > ref_lvl + 1) {\n						new_donts"))
bug("c08-unref-walk", "C08", ("						processed.insert(n);\n					}\n				}\n\n				const auto ref_lvl", "						processed.insert(n);\n					}\n				}\n				if (processed.count(unrefined) > 0) continue;\n\n				const auto ref_lvl"))
bug("c08-unref-same", "C08", ("				if (ref_lvl == unref_lvl) {\n					// same size", "				if (ref_lvl >= unref_lvl) {\n					// same size"))
bug("c08-unref-late", "C08", ("		this->all_to_all_set(this->cells_not_to_unrefine);\n\n		// unrefines that were not overridden", "		// unrefines that were not overridden"))
bug("c09-child-owner", "C09", ("				this->cell_process[child] = process_of_refined;\n", "				this->cell_process[child] = this->pin_requests.count(refined) > 0 ? this->pin_requests.at(refined) : process_of_refined;\n"))
bug("c09-weights", "C09", ("				this->cell_weights.erase(refined);\n", ""))
bug("c09-pin-new", "C09", ("			this->new_pin_requests.erase(unrefined);\n", ""))
bug("c09-parent-owner", "C09", ("= this->cell_process.at(siblings[0]);", "= this->cell_process.at(unrefined);"))
bug("c09-parent-last", "C09", ("= this->cell_process.at(siblings[0]);", "= this->cell_process.at(siblings[7]);"))
bug("c09-data-kept", "C09", ("				this->unrefined_cell_data[unrefined] = this->cell_data.at(unrefined);\n				this->cell_data.erase(unrefined);\n", "				this->cell_data.erase(unrefined);\n				this->unrefined_cell_data[unrefined];\n"))
bug("c09-parent-data", "C09", ("			if (this->cell_process.at(parent) == this->rank) {\n				this->cell_data[parent];\n			}", "			if (this->cell_process.at(parent) == this->rank && this->unrefined_cell_data.size() > 8) {\n				this->cell_data[parent];\n			}"))
bug("c09-stale", "C09", ("		this->refined_cell_data.clear();\n		this->unrefined_cell_data.clear();\n\n		#ifdef DEBUG", "		this->refined_cell_data.clear();\n\n		#ifdef DEBUG"))
bug("c09-pin-order", "C09", ("			if (this->pin_requests.count(refined) > 0) {\n				for (const uint64_t child: children) {\n					this->pin_requests[child] = this->pin_requests.at(refined);\n				}\n				this->pin_requests.erase(refined);\n			}", "			if (this->pin_requests.count(refined) > 0) {\n				const auto pinned = this->pin_requests.at(refined);\n				this->pin_requests.erase(refined);\n				this->pin_requests[children[0]] = pinned;\n			}"))
bug("c10-pin-range", "C10", ("		if (process < 0 || process >= (int) this->comm_size) {\n			return false;\n		}\n\n		// do nothing if the request already exists", "		if (process < 0 || process > (int) this->comm_size) {\n			return false;\n		}\n\n		// do nothing if the request already exists"))
bug("c10-unpin-pending", "C10", ("			this->new_pin_requests[cell] = this->comm_size;\n		} else {\n			this->new_pin_requests.erase(cell);\n		}", "			this->new_pin_requests[cell] = this->comm_size;\n		}"))
bug("c10-merge-range", "C10", ("				if (requested_process >= this->comm_size) {", "				if (requested_process > this->comm_size) {"))
bug("c10-merge-own", "C10", ("const uint64_t requested_process = all_new_pinned_processes[process][i];", "const uint64_t requested_process = all_new_pinned_processes[process][0];"))
bug("c10-ignore-pin", "C10", ("				if (this->pin_requests.count(global_ids_to_receive[i]) > 0) {", "				if (this->new_pin_requests.count(global_ids_to_receive[i]) > 0) {"))
bug("c10-late-weights", "C10", ("		this->make_new_partition(use_zoltan);\n", "		this->cell_weights.clear();\n		this->make_new_partition(use_zoltan);\n"))
bug("c10-keep-requests", "C10", ("		this->cells_not_to_unrefine.clear();\n		this->cell_weights.clear();", "		this->cell_weights.clear();"))
bug("c10-pin-late", "C10", ("		this->update_pin_requests();\n\n		int\n			partition_changed,", "		int\n			partition_changed,"), ("		this->added_cells.clear();\n		this->removed_cells.clear();\n		this->cells_to_receive.clear();\n		this->cells_to_send.clear();\n", "		this->added_cells.clear();\n		this->removed_cells.clear();\n		this->cells_to_receive.clear();\n		this->cells_to_send.clear();\n		if (use_zoltan) {\n			this->update_pin_requests();\n		}\n"))
bug("c10-added", "C10", ("				this->added_cells.insert(pin_request->first);\n", ""))

# ---- C11
bug("c11-self-neighbor", "C11", ("				if (neighbor == 0\n				/* Zoltan 3.501 crashes in hierarchial\n				if a cell is a neighbor to itself */\n				|| neighbor == cell) {", "				if (neighbor == 0) {"))
bug("c11-no-self-edge", "C11", ("			(*number_of_connections)++;\n\n			for (const auto& neighbor_i", "			for (const auto& neighbor_i"))
bug("c11-weight-default", "C11", ("					object_weights[i] = 1;", "					object_weights[i] = 0;"))
bug("c11-weight-positive", "C11", ("				if (dccrg_instance->cell_weights.count(item.first) > 0) {", "				if (dccrg_instance->cell_weights.count(item.first) > 0 and dccrg_instance->cell_weights.at(item.first) > 1) {"))
bug("c11-offset-late", "C11", ("			hyperedge_connection_offsets[i] = connection_number;\n\n			// add a connection to the cell itself from its hyperedge\n			connections[connection_number++] = item.first;\n", "			// add a connection to the cell itself from its hyperedge\n			connections[connection_number++] = item.first;\n			hyperedge_connection_offsets[i] = connection_number;\n"))
bug("c11-owner", "C11", ("					= int(dccrg_instance->cell_process.at(neighbor));", "					= int(dccrg_instance->cell_process.at(cell));"))
bug("c11-level", "C11", (("level >= int(dccrg_instance->processes_per_part.size())", 1), "level > int(dccrg_instance->processes_per_part.size())"))
bug("c11-options-level", "C11", (("dccrg_instance->partitioning_options.at(level)", 0), "dccrg_instance->partitioning_options.at(0)"))
bug("c11-corner", "C11", ("				= dccrg_instance->geometry.get_center(cell);\n\n			geom_vec", "				= dccrg_instance->geometry.get_min(cell);\n\n			geom_vec"))
bug("c11-edge-weight", "C11", ("					number_of_hyperedges++;", "					number_of_hyperedges = 1;"))

# ---- C12
bug("c12-all-cells", "C12", ("		this->all_cells_user.erase(neighborhood_id);\n", ""))
bug("c12-boundary", "C12", ("		this->user_remote_cells_on_process_boundary.erase(neighborhood_id);\n", ""))
bug("c12-offset", "C12", ("					if ((unsigned int) abs(neigh_item[i]) > this->neighborhood_length) {", "					if (neigh_item[i] > int(this->neighborhood_length)) {"))
bug("c12-two-dims", "C12", ("				if (zero_offsets != 2) {", "				if (zero_offsets == 3) {"))
bug("c12-early", "C12", ("		if (this->neighborhood_length > 0) {\n\n			for (const auto& neigh_item: given_neigh) {\n				for (size_t i = 0; i < 3; i++) {\n					if ((unsigned int)", "		this->user_hood_of[neighborhood_id] = given_neigh;\n		if (this->neighborhood_length > 0) {\n\n			for (const auto& neigh_item: given_neigh) {\n				for (size_t i = 0; i < 3; i++) {\n					if ((unsigned int)"))
bug("c12-local-only", "C12", ("		this->update_cell_pointers_user(neighborhood_id);\n", "		if (this->user_neigh_cells_to_send.at(neighborhood_id).size() > 0) {\n			this->update_cell_pointers_user(neighborhood_id);\n		}\n"))
bug("c12-unknown-ok", "C12", (("		if (this->user_hood_of.count(neighborhood_id) == 0) {\n\n			#ifdef DEBUG", 1), "		if (this->user_hood_of.count(neighborhood_id) == 0) {\n			if (this->comm_size == 1) { return true; }\n			#ifdef DEBUG"))

# ---- C17
G = "dccrg_get_cell_datatype.hpp"
bug("c17-swap", "C17", (G, ("		sender,\n		receiver,\n		receiving,", 1), "		receiver,\n		sender,\n		receiving,"))
bug("c17-debug", "C17", (("				<< \" DCCRG not initialized before calling \" << __func__\n", 1), "				<< \" DCCRG not initialized before calling \" << __func__ << this->no_such_member\n"))
bug("c17-remote", "C17", (("			if (neighbor.first == error_cell) {", 1), "			if (neighbor == error_cell) {"))

# ---- C22
M = "dccrg_mpi_support.hpp"
bug("c22-ushort", "C22", (G, "DCCRG_GET_MPI_DATATYPE_BASIC(unsigned short int, MPI_UNSIGNED_SHORT)", "DCCRG_GET_MPI_DATATYPE_BASIC(unsigned short int, MPI_UNSIGNED_CHAR)"))
bug("c22-array-ld", "C22", (G, "DCCRG_GET_MPI_DATATYPE_ARRAY(long double, MPI_LONG_DOUBLE)", "DCCRG_GET_MPI_DATATYPE_ARRAY(long double, MPI_DOUBLE)"))
bug("c22-array-one", "C22", (G, "return std::make_tuple((void*) cell.data(), cell.size(), MPI); \\", "return std::make_tuple((void*) cell.data(), 1, MPI); \\"))
bug("c22-topology", "C22", ("dccrg_topology.hpp", ("			3,\n", 1), "			2,\n"))
bug("c22-int-u64", "C22", (M, "1,\n			MPI_UINT64_T,\n			MPI_SUM", "1,\n			MPI_INT,\n			MPI_SUM"))
bug("c22-no-wait", "C22", (M, "			if (MPI_Wait(&(send_requests", "			if (process == 0) { continue; }\n			if (MPI_Wait(&(send_requests"))
bug("c22-stale", "C22", (M, "		result.clear();\n		result.resize(comm_size);\n", "		if (result.size() < size_t(comm_size)) { result.resize(comm_size); }\n"))
bug("c22-result", "C22", (M, "uint64_t result = value;", "uint64_t result = neighbors.empty() ? value : 0;"))

# ---- C19
bug("c19-clear-debug", "C19", ("		this->new_pin_requests.clear();\n", "		#ifdef DEBUG\n		this->new_pin_requests.clear();\n		#endif\n"))
bug("c19-insert-debug", "C19", (("		#ifdef DEBUG\n		if (!this->is_consistent()) {", 1), "		#ifdef DEBUG\n		this->cell_process[0];\n		if (!this->is_consistent()) {"))
bug("c19-return-debug", "C19", (("		#ifdef DEBUG\n		if (!this->is_consistent()) {", 1), "		#ifdef DEBUG\n		if (this->cell_process.empty()) { return; }\n		if (!this->is_consistent()) {"))
bug("c19-cond-debug", "C19", ("		if (this->cell_process.at(cell) != this->rank) {\n			return false;", "		#ifdef DEBUG\n		if (this->cell_process.at(cell) != this->rank) {\n			return false;\n		}\n		#endif\n		if (this->cell_process.at(cell) > this->rank) {\n			return false;"))
bug("c19-verify", "C19", ("	bool verify_user_data()\n	{\n", "	bool verify_user_data()\n	{\n		this->remote_neighbors.clear();\n"))

# ---- C20
bug("c20-erase-loop", "C20", ("		for (const uint64_t removed_cell: this->removed_cells) {\n", "		for (const uint64_t removed_cell: this->removed_cells) {\n			if (this->cell_data.count(removed_cell) == 0) { this->removed_cells.erase(removed_cell); continue; }\n"))
bug("c20-indirect", "C20", ("	/*!\n	Starts user data transfers between processes based on cells_to_send and cells_to_receive.\n", "	void drop(const uint64_t c) { this->cell_process.erase(c); }\n\n	/*!\n	Starts user data transfers between processes based on cells_to_send and cells_to_receive.\n"),
    ("		// set user_hood_of and _to\n", "		for (const auto& item: this->cell_process) { if (item.first == 0) { this->drop(item.first); } }\n		// set user_hood_of and _to\n"))
bug("c20-lookup", "C20", ("		// set user_hood_of and _to\n", "		for (const auto& item: this->cell_weights) { this->cell_weights[item.first + 1] = 1; }\n		// set user_hood_of and _to\n"))

# ---- C16
MP = "dccrg_mapping.hpp"
bug("c16-shift", "C16", (MP, "				* (uint64_t(1) << 3 * refinement_level);", "				* (1 << 3 * refinement_level);"))
bug("c16-u32-local", "C16", (MP, "		uint64_t current_last = 0;\n", "		uint32_t current_last = 0;\n"))
bug("c16-int-cell", "C16", (MP, "		uint64_t cell = 1;\n", "		unsigned int cell = 1;\n"))
bug("c16-offset", "C16", ("		offset += sizeof(uint64_t);\n", "		const int header_end = int(offset) + 8;\n		offset = header_end;\n"))
bug("c16-product", "C16", ("current_byte_offset += counts[i] * (uint64_t) current_bytes;", "current_byte_offset += counts[i] * current_bytes;"))
bug("c16-float", "C16", (MP, "	uint64_t get_parent(const uint64_t cell) const\n	{\n", "	uint64_t get_parent(const uint64_t cell) const\n	{\n		if (uint64_t(double(cell)) > this->last_cell) { return error_cell; }\n"))
bug("c16-length2", "C16", ("dccrg_length.hpp", "			* double(this->length[1])\n			* double(this->length[2]);", "			* double(this->length[1]);"))
bug("c16-length-sum", "C16", ("dccrg_length.hpp", "			* double(this->length[1])\n			* double(this->length[2]);", "			+ double(this->length[1])\n			+ double(this->length[2]);"))
bug("c16-length-wrap", "C16", ("dccrg_length.hpp", "double(this->length[0])\n			* double(this->length[1])\n			* double(this->length[2]);", "double(this->length[0]\n			* this->length[1]\n			* this->length[2]);"))
bug("c16-counter", "C16", ("dccrg_cartesian_geometry.hpp", "	std::array<double, 3> get_min(const uint64_t cell) const\n	{\n", "	std::array<double, 3> get_min(const uint64_t cell) const\n	{\n		const unsigned int id = cell;\n		if (id == 0) { return {{0, 0, 0}}; }\n"))

# ---- C23
bug("c23-index-edge", "C23", (MP, "if (indices[2] >= this->length.get()[2] *", "if (indices[2] > this->length.get()[2] *"))
bug("c23-index-dim", "C23", (MP, "if (indices[2] >= this->length.get()[2] *", "if (indices[2] >= this->length.get()[1] *"))
bug("c23-neg-level", "C23", (MP, "		if (refinement_level < 0) {\n			return error_cell;\n		}\n\n		if (refinement_level > this->max_refinement_level) {", "		if (refinement_level > this->max_refinement_level) {"))
bug("c23-last", "C23", (MP, "		if (cell == error_cell || cell > this->last_cell) {\n			const", "		if (cell == error_cell || cell >= this->last_cell) {\n			const"))
bug("c23-child-err", "C23", (MP, "		if (cell == error_cell or cell > this->get_last_cell()) {\n			return error_cell;", "		if (cell == error_cell or cell > this->get_last_cell()) {\n			return cell;"))
bug("c23-update", "C23", (MP, "			this->max_refinement_level = given_refinement_level;\n			this->update_last_cell();", "			if (given_refinement_level < this->max_refinement_level) { this->max_refinement_level = given_refinement_level; return true; }\n			this->max_refinement_level = given_refinement_level;\n			this->update_last_cell();"))
bug("c23-update2", "C23", (MP, "		this->update_last_cell();\n\n		return true;", "		return true;"))
bug("c23-negmax", "C23", (MP, "			given_refinement_level >= 0\n			and given", "			given"))
bug("c23-setlen", "C23", (MP, "		if (this->max_refinement_level > this->get_maximum_possible_refinement_level()) {\n			this->length_rw.set(old_length);\n			return false;\n		}\n\n", ""))
bug("c23-children", "C23", (MP, "if (refinement_level < 0 || refinement_level >=", "if (refinement_level >="))
bug("c23-parent0", "C23", (MP, "		if (refinement_level == 0) {\n			return cell;\n		}\n\n		return this->get_cell_from_indices(this->get_indices(cell), refinement_level - 1);", "		if (refinement_level <= 1) {\n			return cell;\n		}\n\n		return this->get_cell_from_indices(this->get_indices(cell), refinement_level - 1);"))

# ---- C14
CG, SG, NG = "dccrg_cartesian_geometry.hpp", "dccrg_stretched_cartesian_geometry.hpp", "dccrg_no_geometry.hpp"
bug("c14-index-edge", "C14", (CG, "			|| index[1] >= max_index[1]", "			|| index[1] > max_index[1]"))
bug("c14-underflow", "C14", (SG, "				if (coord_start_index > 0) {\n					coord_start_index--;\n				}", "				coord_start_index--;"))
bug("c14-nowrap", "C14", (SG, "coordinate = this->get_real_coordinate(given_coordinate);", "coordinate = given_coordinate;"))
bug("c14-periodic", "C14", (NG, "this->topology.is_periodic(dimension)", "this->topology.is_periodic(0)"))
bug("c14-level", "C14", (NG, "		if (refinement_level < 0\n		|| refinement_level > this->mapping.get_maximum_refinement_level()) {\n			return error_val;", "		if (refinement_level < 0) {\n			return error_val;"))
bug("c14-inside", "C14", (CG, "			if (coordinate[dimension] >= grid_start[dimension]\n			&& coordinate[dimension] <= grid_end[dimension]) {", "			if (coordinate[dimension] >= grid_start[0]\n			&& coordinate[dimension] <= grid_end[dimension]) {"))
bug("c14-length", "C14", (SG, "std::array<double, 3> get_length(const uint64_t cell) const\n	{\n", "std::array<double, 3> get_length(const uint64_t cell) const\n	{\n		if (cell == error_cell) { return {{0, 0, 0}}; }\n"))

# ---- C15
bug("c15-length-keep", "C15", ("dccrg_length.hpp", "			this->length = old_length;\n", ""))
bug("c15-mapping-keep", "C15", (MP, "			this->length_rw.set(old_length);\n			return false;", "			return false;"))
bug("c15-cart-early", "C15", (CG, "	bool set(const Parameters& given_parameters)\n	{\n", "	bool set(const Parameters& given_parameters)\n	{\n		this->parameters.start = given_parameters.start;\n"))
bug("c15-cart-zero", "C15", (CG, "			if (given_parameters.level_0_cell_length[dimension] <= 0) {", "			if (given_parameters.level_0_cell_length[dimension] < 0) {"))
bug("c15-levels", "C15", ("		this->partitioning_options.erase(\n			this->partitioning_options.begin() + hierarchial_partitioning_level\n		);\n", ""))
bug("c15-reserved", "C15", ("		this->reserved_options.insert(\"RETURN_LISTS\");\n", ""))
bug("c15-option-order", "C15", ("		if (this->reserved_options.count(name) > 0) {\n			throw std::invalid_argument(\n				\"\\n\" __FILE__ \"(\" + std::to_string(__LINE__) + \"): \"\n				+ \"Option \" + name + \" is reserved for dccrg\"\n			);\n		}\n\n		this->partitioning_options[hierarchial_partitioning_level][name] = value;", "		this->partitioning_options[hierarchial_partitioning_level][name] = value;\n		if (this->reserved_options.count(name) > 0) {\n			throw std::invalid_argument(\n				\"\\n\" __FILE__ \"(\" + std::to_string(__LINE__) + \"): \"\n				+ \"Option \" + name + \" is reserved for dccrg\"\n			);\n		}\n"))
bug("c15-stretched-eq", "C15", (SG, "					>= given_parameters.coordinates[dimension][i + 1]", "					> given_parameters.coordinates[dimension][i + 1]"))
bug("c15-periodic-z", "C15", ("		this->topology_rw.set_periodicity(2, z);", "		this->topology_rw.set_periodicity(2, y);"))

# C13 copies
bug("c13-cross", "C13", ("		user_neigh_cells_to_send(other.get_user_neigh_cells_to_send()),", "		user_neigh_cells_to_send(other.get_user_neigh_cells_to_receive()),"))
bug("c13-hood", "C13", ("		neighborhood_to(other.get_neighborhood_to()),", "		neighborhood_to(other.get_neighborhood_of()),"))
bug("c13-drop", "C13", ("		send_single_cells(other.get_send_single_cells()),\n", ""))
bug("c13-drop2", "C13", ("		neighbors_(other.get_neighbors_()),\n", ""))
bug("c13-rank", "C13", ("		comm_size(uint64_t(other.get_comm_size())),", "		comm_size(uint64_t(other.get_rank())),"))
bug("c13-geom", "C13", ("		if (!this->geometry_rw.set(other.geometry)) {", "		if (not other.get_initialized() and !this->geometry_rw.set(other.geometry)) {"))
bug("c13-data", "C13", ("			this->cell_data[cell_item->first];\n", "			if (this->local_cells_on_process_boundary.count(cell_item->first) == 0) {\n				this->cell_data[cell_item->first];\n			}\n"))
bug("c13-alloc", "C13", ("			this->cell_data[cell_item->first];\n		}\n\n		this->allocate_copies_of_remote_neighbors();\n", "			this->cell_data[cell_item->first];\n		}\n\n"))
bug("c13-zoltan", "C13", ("		// don't use data of the other grid when balancing load\n		this->set_zoltan_callbacks();\n", ""))
bug("c13-mapref", "C13", (MP, "		length_rw(other.length_rw),\n		length(length_rw)", "		length_rw(other.length_rw),\n		length(other.length)"))
bug("c13-maplast", "C13", (MP, "		this->last_cell = other.last_cell;\n", ""))
bug("c13-getter", "C13", ("	const std::unordered_map<uint64_t, uint64_t>& get_pin_requests() const\n	{\n		return this->pin_requests;", "	const std::unordered_map<uint64_t, uint64_t>& get_pin_requests() const\n	{\n		return this->new_pin_requests;"))
bug("c13-params", "C13", (CG, "		return this->set(other.get());", "		Parameters p = this->parameters;\n		p.start = other.get().start;\n		return this->set(p);"))

# C21 iteration
bug("c21-swap-ranges", "C21", ("		std::advance(remote_cells.begin_, nr_inner + nr_outer);", "		std::advance(remote_cells.begin_, nr_inner);"))
bug("c21-to-begin", "C21", ("			std::advance(\n				cells[i].neighbors_to.begin_,\n				nr_neighbors[i][0] + nr_neighbors[i][1]\n			);", "			std::advance(\n				cells[i].neighbors_to.begin_,\n				nr_neighbors[i][0] + nr_neighbors[i][2]\n			);"))
bug("c21-both", "C21", ("				if (ids_to.count(temp) > 0) {\n					neighbors_both.insert(n);", "				if (ids_to.count(n) > 0) {\n					neighbors_both.insert(n);"))
bug("c21-erase", "C21", ("				only_neighbors_to.erase(temp);", "				only_neighbors_to.erase(n);"))
bug("c21-offset", "C21", (("				item.y = neighbor.second[1];", 1), "				item.y = neighbor.second[2];"))
bug("c21-error", "C21", ("			for (const auto& n: *neighbors_to) {\n				if (n.first != error_cell) {\n					#ifdef DEBUG", "			for (const auto& n: *neighbors_to) {\n				if (n.first != error_cell or ids_of.size() == 0) {\n					#ifdef DEBUG"))
bug("c21-bdy", "C21", ("				return this->user_local_cells_on_process_boundary.at(neighborhood_id);\n			}\n			throw", "				return this->local_cells_on_process_boundary;\n			}\n			throw"))
bug("c21-count", "C21", ("			ordered_cells.push_back(cell);\n			nr_remote++;", "			ordered_cells.push_back(cell);\n			if (this->cell_data.count(cell) == 0 and cell % 2 == 0) nr_remote++;"))
bug("c21-call", "C21", ("				this->outer_cells_user[neighborhood_id],\n				this->local_cells_user[neighborhood_id],", "				this->local_cells_user[neighborhood_id],\n				this->outer_cells_user[neighborhood_id],"))
bug("c21-accessor", "C21", ("				return this->local_cells_user.at(neighborhood_id);", "				return this->outer_cells_user.at(neighborhood_id);"))
bug("c21-dataid", "C21", ("			new_cells_item.update_caller(*this, Additional_Cell_Items()...);\n			cells.push_back(std::move(new_cells_item));", "			cells.push_back(new_cells_item);\n			new_cells_item.update_caller(*this, Additional_Cell_Items()...);"))
bug("c21-hood", "C21", ("				*neighbors_to = this->get_neighbors_to(cell, neighborhood_id);\n			if (neighbors_of == nullptr) {\n				throw std::runtime_error(\n					__FILE__", "				*neighbors_to = this->get_neighbors_to(cell);\n			if (neighbors_of == nullptr) {\n				throw std::runtime_error(\n					__FILE__"))

# C18 dimensions
bug("c18-end", "C18", (CG, "				grid_start[2]\n				+ double(length[2])\n					* this->parameters.level_0_cell_length[2],", "				grid_start[2]\n				+ double(length[2])\n					* this->parameters.level_0_cell_length[1],"))
bug("c18-periodic", "C18", ("		this->topology_rw.set_periodicity(1, y);\n", "		this->topology_rw.set_periodicity(1, x);\n"))
bug("c18-loop", "C18", ("dccrg_topology.hpp", ("		for (size_t dimension = 0; dimension < this->periodic.size(); dimension++) {", 1), "		for (size_t dimension = 0; dimension < 2; dimension++) {"))
bug("c18-exist", "C18", ("		|| indices[1] == error_index\n		|| indices[2] == error_index) {\n			return error_cell;\n		}\n\n		return this->get_existing_cell(indices, 0,", "		|| indices[1] == error_index\n		|| indices[1] == error_index) {\n			return error_cell;\n		}\n\n		return this->get_existing_cell(indices, 0,"))
bug("c18-len", "C18", ("			this->length.get()[2] * (uint64_t(1) << this->mapping.get_maximum_refinement_level())\n", "			this->length.get()[2] * (uint64_t(1) << 0)\n"))

# C24 numbers
SG = "dccrg_stretched_cartesian_geometry.hpp"
bug("c24-first", "C24", (MP, "			* (uint64_t(1) << (2 * refinement_level))\n", "			* (uint64_t(1) << (refinement_level + 1))\n".replace("+ 1", "+ (refinement_level > 2 ? 2 : refinement_level)")))
bug("c24-div", "C24", (MP, "			indices[2] / (uint64_t(1) << (this->max_refinement_level - refinement_level))\n", "			indices[2] / (uint64_t(1) << this->max_refinement_level) * (uint64_t(1) << refinement_level)\n"))
bug("c24-ylen", "C24", (MP, "			+ this_level_indices[2] * this_level_length[0] * this_level_length[1];", "			+ this_level_indices[2] * this_level_length[0] * this_level_length[0];"))
bug("c24-last", "C24", (MP, "		for (int i = 0; i <= this->max_refinement_level; i++) {\n			this->last_cell", "		for (int i = 0; i < this->max_refinement_level + (this->max_refinement_level > 8 ? 0 : 1); i++) {\n			this->last_cell"))
bug("c24-level", "C24", (MP, "			if (cell <= current_last) {", "			if (cell < current_last) {"))
bug("c24-parent", "C24", (MP, "this->get_indices(cell), refinement_level - 1);", "this->get_indices(cell), refinement_level - (refinement_level > 5 ? 2 : 1));"))
bug("c24-center", "C24", (CG, "				+ cell_length[2] / 2\n", "				+ level_0_cell_length[2] / 2\n"))
bug("c24-intdiv", "C24", (CG, "			cell_offset_scaling_factor = 1.0 / double(uint64_t(1) << refinement_level) / 2;", "			cell_offset_scaling_factor = 1 / (uint64_t(1) << refinement_level) / 2.0;"))
bug("c24-scale", "C24", (CG, "			coordinate_scaling_factor = 1.0 / double(index_scaling_factor),", "			coordinate_scaling_factor = 1.0 / double(uint64_t(1) << refinement_level),"))

# C25 neighbor searches
bug("c25-wrap", "C25", ("							if (temp_indices[dimension] >= length_in_indices) {", "							if (temp_indices[dimension] > length_in_indices) {"))
bug("c25-wrapend", "C25", ("temp_indices[dimension] = grid_length[dimension] - length_in_indices;", "temp_indices[dimension] = grid_length[dimension] - 1;"))
bug("c25-edge", "C25", ("							indices[dimension] + offsets[dimension] * length_in_indices\n							>= grid_length[dimension]", "							indices[dimension] + offsets[dimension] * length_in_indices\n							> grid_length[dimension]"))
bug("c25-low", "C25", ("if (indices[dimension] < abs(offsets[dimension]) * length_in_indices) {", "if (indices[dimension] < length_in_indices) {"))
bug("c25-count", "C25", ("						for (int i = 0; i > offsets[dimension]; i--) {", "						for (int i = 0; i > std::max(offsets[dimension], -8); i--) {"))
bug("c25-par", "C25", ("						const auto par_off = get_parent_offset(to);\n						offset[0] -= par_off[0];\n						offset[1] -= par_off[1];\n						offset[2] -= par_off[2] + from_len;", "						const auto par_off = get_parent_offset(to);\n						offset[0] -= par_off[0];\n						offset[1] -= par_off[1];\n						offset[2] -= par_off[2] + to_len;"))
bug("c25-from", "C25", ("						const auto par_off = get_parent_offset(from);\n						offset[0] += par_off[0];\n						offset[1] += par_off[1] + to_len;", "						const auto par_off = get_parent_offset(from);\n						offset[0] += par_off[0];\n						offset[1] += par_off[1] + from_len;"))
bug("c25-dir", "C25", ("adjust_offset(offset, current, neighs[3], +2);", "adjust_offset(offset, current, neighs[3], +3);"))
bug("c25-len", "C25", (("					curr_len = get_len_int(current);\n					continue;\n", 4), "					continue;\n"))
bug("c25-while", "C25", ("				or offset[2] + curr_len - 1 < off_start[2] or offset[2] > off_end[2]\n", "				or offset[2] + curr_len < off_start[2] or offset[2] > off_end[2]\n"))
bug("c25-endoff", "C25", ("					(hood[2] + 1) * cell_length - 1\n", "					hood[2] * cell_length\n"))
bug("c25-sib", "C25", ("			if (current_i % 4 > 1) {", "			if (current_i % 4 > 2) {"))
bug("c25-siborder", "C25", ("{offset[0] + off_x, offset[1] + off_y, offset[2] + off_z}", "{offset[0] + off_x, offset[1] + off_z, offset[2] + off_y}"))
bug("c25-size", "C25", ("			if (curr_len >= cell_length) {\n				return_neighbors", "			if (curr_len > cell_length) {\n				return_neighbors"))
bug("c25-to-level", "C25", ("			if (found == this->get_child(found)) {\n				unique_neighbors[found] = {0, 0, 0};\n			}\n		}\n\n		return_neighbors.reserve", "			if (found == this->get_child(found) and found != cell) {\n				unique_neighbors[found] = {0, 0, 0};\n			}\n		}\n\n		return_neighbors.reserve"))
bug("c25-to-err", "C25", (("				if (search_index[0] == error_index) {\n					continue;", 0), "				if (search_index[0] == error_index) {\n					break;"))
bug("c25-to-len", "C25", ("			const auto length_in_indices = this->mapping.get_cell_length_in_indices(parent);", "			const auto length_in_indices = this->mapping.get_cell_length_in_indices(cell);"))
bug("c25-face-neg", "C25", ("search_indices[dir_i][dim_i] = grid_length[dim_i] * (uint64_t(1) << max_ref_lvl) - 1;\n				}\n			} else {\n				search_indices[dir_i][dim_i]--;", "search_indices[dir_i][dim_i] = grid_length[dim_i] * (uint64_t(1) << max_ref_lvl) - cell_length;\n				}\n			} else {\n				search_indices[dir_i][dim_i]--;"))
bug("c25-face-pos", "C25", ("				or search_indices[dir_i][dim_i] > max_index - cell_length\n", "				or search_indices[dir_i][dim_i] >= max_index - cell_length\n"))
bug("c25-face-level", "C25", ("						return ref_lvl + 1;\n", "						return max_ref_lvl;\n"))
bug("c25-existing", "C25", ("			int ref_lvl = maximum_refinement_level;\n			ref_lvl >= minimum_refinement_level;\n			ref_lvl--\n", "			int ref_lvl = minimum_refinement_level;\n			ref_lvl <= maximum_refinement_level;\n			ref_lvl++\n"))
bug("c25-facelist", "C25", ("			case 4:\n			case 5:\n				if (neighs_neighs[1] != error_cell) {", "			case 4:\n			case 5:\n				if (neighs_neighs[3] != error_cell and neighs_neighs[1] != error_cell) {"))
bug("c25-atoffset", "C25", ("					and indices[2] == ref_index[2]\n				) {\n					return_neighbors.push_back(neighbor_i);", "					and indices[2] <= ref_index[2]\n				) {\n					return_neighbors.push_back(neighbor_i);"))
bug("c25-box", "C25", ("indices[1] <= indices_max[1]; indices[1] += index_increase)", "indices[1] < indices_max[1]; indices[1] += index_increase)"))
