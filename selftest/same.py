D = "dccrg.hpp"
SAME = []


def same(id, *edits):
    SAME.append({"id": id, "edits": [e if len(e) == 3 else (D,) + e for e in edits]})


same("s-comment", ("		this->new_pin_requests.clear();\n	}\n", "		this->new_pin_requests.clear();\n		// nothing else\n		;\n	}\n"))
same("s-helper-rebuild", (("		this->update_remote_neighbor_info();\n		// also remote neighbor info of user neighborhoods\n		for (const auto& item: this->user_hood_of) {\n			this->update_user_remote_neighbor_info(item.first);\n		}\n\n		this->recalculate_neighbor_update_send_receive_lists();\n\n		this->allocate_copies_of_remote_neighbors();\n", 1),
     "		this->rebuild_remote_info();\n"),
     ("	/*!\n	Starts user data transfers between processes based on cells_to_send and cells_to_receive.\n",
      "	void rebuild_remote_info()\n	{\n		this->update_remote_neighbor_info();\n		for (const auto& item: this->user_hood_of) {\n			this->update_user_remote_neighbor_info(item.first);\n		}\n		this->recalculate_neighbor_update_send_receive_lists();\n		this->allocate_copies_of_remote_neighbors();\n	}\n\n	/*!\n	Starts user data transfers between processes based on cells_to_send and cells_to_receive.\n"))
same("s-boundary-hoist", ("			if (this->cell_process.at(neighbor_to) != this->rank) {\n				this->local_cells_on_process_boundary.insert(cell);\n				this->remote_cells_on_process_boundary.insert(neighbor_to);\n			}",
     "			const auto owner = this->cell_process.at(neighbor_to);\n			if (owner == this->rank) continue;\n			this->remote_cells_on_process_boundary.insert(neighbor_to);\n			this->local_cells_on_process_boundary.insert(cell);"))
same("s-balance-loop-swap", (("		for (const auto& i: this->cell_process) {\n			for (const auto& j: this->user_hood_of) {\n				this->update_user_neighbors(i.first, j.first);", 1),
     "		for (const auto& j: this->user_hood_of) {\n			for (const auto& i: this->cell_process) {\n				this->update_user_neighbors(i.first, j.first);"))
same("s-creator-rangefor", ("		for (uint64_t cell_creator = 0; cell_creator < all_added_cells.size(); cell_creator++) {\n\n			for (const uint64_t created_cell: all_added_cells.at(cell_creator)) {\n				this->cell_process.at(created_cell) = cell_creator;\n			}\n		}",
     "		uint64_t cell_creator = 0;\n		for (const auto& added: all_added_cells) {\n			for (const uint64_t created_cell: added) {\n				this->cell_process[created_cell] = cell_creator;\n			}\n			cell_creator++;\n		}"))
same("s-pins-index", ("				const uint64_t requested_process = all_new_pinned_processes[process][i];\n\n				if (requested_process >= this->comm_size) {\n					this->pin_requests.erase(all_new_pinned_cells[process][i]);\n				} else {\n					this->pin_requests[all_new_pinned_cells[process][i]] = requested_process;\n				}\n",
     "				const auto cell = all_new_pinned_cells[process][i];\n				const uint64_t requested_process = all_new_pinned_processes[process][i];\n				if (requested_process < this->comm_size) {\n					this->pin_requests[cell] = requested_process;\n				} else {\n					this->pin_requests.erase(cell);\n				}\n"))
same("s-allset-vector", ("		std::vector<uint64_t> local_s(s.begin(), s.end());\n", "		std::vector<uint64_t> local_s;\n		local_s.reserve(s.size());\n		for (const auto& c: s) {\n			local_s.push_back(c);\n		}\n"))
same("s-lists-ternary", ("				const int other_process = int(this->cell_process.at(neighbor));\n\n				if (other_process != current_process) {\n					unique_cells_to_send[other_process].insert(cell);\n				}",
     "				const int other_process = int(this->cell_process.at(neighbor));\n				if (other_process == current_process) {\n					continue;\n				}\n				unique_cells_to_send[other_process].insert(cell);"))
same("s-refine-split-loops", ("				this->cell_process[child] = process_of_refined;\n\n				if (this->rank == process_of_refined) {\n					this->cell_data[child];\n					this->neighbors_of[child];\n					this->neighbors_to[child];\n					new_cells.push_back(child);\n				}\n			}",
     "				this->cell_process[child] = process_of_refined;\n			}\n			if (process_of_refined == this->rank) {\n				for (const uint64_t child: children) {\n					this->cell_data[child];\n					this->neighbors_of[child];\n					this->neighbors_to[child];\n					new_cells.push_back(child);\n				}\n			}"))
same("s-donts-while", ("		} while (new_donts.size() > 0);\n", "		} while (not new_donts.empty());\n"))

TAGS = """			for (unsigned int i = 0; i < sender->second.size(); i++) {
				const int tag = (int) i + 1;
				if (tag > (int) this->max_tag) {
					std::cerr << __FILE__ << ":" << __LINE__
						<< " Process " << this->rank
						<< ": Message tag would overflow for receiving cell " << sender->second[i].first
						<< " from process " << sender->first
						<< std::endl;
					abort();
				}
				sender->second[i].second = tag;
			}
"""
same("s-tags-counter", ((TAGS, 1), """			int tag = 1;
			for (auto& item: sender->second) {
				if (tag > (int) this->max_tag) {
					std::cerr << "tag overflow" << std::endl;
					abort();
				}
				item.second = tag;
				tag++;
			}
"""))
same("s-tags-helper", ((TAGS, 1), "			this->set_tags(sender->second);\n"),
     ("	/*!\n	Updates user pin requests globally", """	void set_tags(std::vector<std::pair<uint64_t, int>>& list)
	{
		for (size_t i = 0; i < list.size(); i++) {
			if (i + 1 > (size_t) this->max_tag) {
				abort();
			}
			list[i].second = int(i + 1);
		}
	}

	/*!
	Updates user pin requests globally"""))
same("s-transfers-and", ("		if (!this->start_user_data_receives(destination, receive_item, neighborhood_id)) {\n			ret_val = false;\n		}\n\n		if (!this->start_user_data_sends(send_item, neighborhood_id)) {\n			ret_val = false;\n		}\n\n		return ret_val;",
     "		const bool received = this->start_user_data_receives(destination, receive_item, neighborhood_id);\n		const bool sent = this->start_user_data_sends(send_item, neighborhood_id);\n		(void) ret_val;\n		return received and sent;"))
same("s-check-helper", (("		ret_val = MPI_File_close(&outfile);\n		if (ret_val != MPI_SUCCESS) {", 1), "		ret_val = MPI_File_close(&outfile);\n		if (not this->mpi_ok(ret_val)) {"),
     ("	/*!\n	Updates user pin requests globally", "	bool mpi_ok(const int result) const\n	{\n		return result == MPI_SUCCESS;\n	}\n\n	/*!\n	Updates user pin requests globally"))
same("s-check-const", (("			if (!this->topology.write(outfile, offset)) {", 1), "			const bool topology_written = this->topology.write(outfile, offset);\n			if (not topology_written) {"))

# --- files
S = "dccrg_stretched_cartesian_geometry.hpp"
same("s-file-rename", (("number_of_cells", 0), "nr_of_cells"), (("memory_displacements", 0), "mem_disps"), (("file_displacements", 0), "file_disps"), (("cell_data_start", 0), "data_begin"))
same("s-file-ternary", ("		if (not write_cell_ids) {\n			cell_data_start -= total_number_of_cells * sizeof(uint64_t);\n		}\n		if (not write_data_offsets) {\n			cell_data_start -= total_number_of_cells * sizeof(uint64_t);\n		}\n", ""),
     ("			+ 2 * total_number_of_cells * sizeof(uint64_t);\n", "			+ total_number_of_cells * sizeof(uint64_t) * ((write_cell_ids ? 1 : 0) + (write_data_offsets ? 1 : 0));\n"),
     ("			if (write_cell_ids and write_data_offsets) {\n				cell_list_start += all_number_of_cells[i] * 2 * sizeof(uint64_t);\n			} else if (write_cell_ids or write_data_offsets) {\n				cell_list_start += all_number_of_cells[i] * sizeof(uint64_t);\n			}\n",
      "			if (write_cell_ids) {\n				cell_list_start += all_number_of_cells[i] * sizeof(uint64_t);\n			}\n			if (write_data_offsets) {\n				cell_list_start += all_number_of_cells[i] * sizeof(uint64_t);\n			}\n"))
same("s-file-stretched-range", (S, "		for (size_t dimension = 0; dimension < this->parameters.coordinates.size(); dimension++) {\n			ret_val = MPI_File_write_at(\n				file,\n				offset,\n				(void*) &(this->parameters.coordinates[dimension][0]),\n				(int) this->parameters.coordinates[dimension].size(),",
     "		size_t dimension = 0;\n		for (const auto& coords: this->parameters.coordinates) {\n			ret_val = MPI_File_write_at(\n				file,\n				offset,\n				(void*) coords.data(),\n				(int) coords.size(),"),
     (S, "			offset += this->parameters.coordinates[dimension].size() * sizeof(double);\n", "			offset += sizeof(double) * coords.size();\n			dimension++;\n"),
     (S, "		for (size_t dimension = 0; dimension < this->parameters.coordinates.size(); dimension++) {\n			read_parameters", "		for (size_t dimension = 0; dimension < 3; dimension++) {\n			read_parameters"))
same("s-file-get", ("			std::tie(\n				addresses[i],\n				counts[i],\n				mem_datatypes[i]\n			) = detail::get_cell_mpi_datatype(\n				this->cell_data.at(cell),\n				cell,\n				(int) this->rank,\n				-1,\n				false,\n				-1\n			);\n		}\n\n		// displacements of cell data in memory\n		std::vector<MPI_Aint> memory_displacements(number_of_cells, 0);\n		for (size_t i = 0; i < number_of_cells; i++) {\n			memory_displacements[i] = (uint8_t*) addresses[i] - (uint8_t*) addresses[0];\n		}\n",
     "			const auto info = detail::get_cell_mpi_datatype(\n				this->cell_data.at(cell),\n				cell,\n				(int) this->rank,\n				-1,\n				false,\n				-1\n			);\n			addresses[i] = std::get<0>(info);\n			counts[i] = std::get<1>(info);\n			mem_datatypes[i] = std::get<2>(info);\n		}\n		const auto memory_displacements = this->get_displacements(addresses);\n"),
     ("	/*!\n	Starts user data transfers between processes based on cells_to_send and cells_to_receive.\n", "	std::vector<MPI_Aint> get_displacements(const std::vector<void*>& adr) const\n	{\n		std::vector<MPI_Aint> result(adr.size(), 0);\n		for (size_t k = 0; k < adr.size(); k++) {\n			result[k] = (uint8_t*) adr[k] - (uint8_t*) adr[0];\n		}\n		return result;\n	}\n\n	/*!\n	Starts user data transfers between processes based on cells_to_send and cells_to_receive.\n"),
     )
same("s-file-disp-one-loop", ("		std::vector<MPI_Aint> file_displacements(number_of_cells, 0);\n		for (size_t i = 0; i < number_of_cells; i++) {\n\n			file_displacements[i] += current_byte_offset;\n", "		std::vector<MPI_Aint> file_displacements(number_of_cells, 0);\n		for (size_t i = 0; i < number_of_cells; i++) {\n			file_displacements[i] = current_byte_offset;\n"))
same("s-req-anyof", ("		for (const auto& neighbor: *neighbors) {\n			if (\n				this->mapping.get_refinement_level(neighbor.first) < refinement_level\n				and this->cells_not_to_refine.count(neighbor.first) > 0\n			) {\n				return false;\n			}\n		}\n", "		const bool vetoed = std::any_of(neighbors->begin(), neighbors->end(), [&](decltype(*neighbors->begin())& n) {\n			return this->cells_not_to_refine.count(n.first) > 0 and this->mapping.get_refinement_level(n.first) < refinement_level;\n		});\n		if (vetoed) {\n			return false;\n		}\n"))
same("s-req-helper", ("		for(const auto& neighbor_i: this->neighbors_of.at(cell)) {\n\n			if (this->mapping.get_refinement_level(neighbor_i.first) <= refinement_level) {\n				const auto neighbor_siblings\n					= this->mapping.get_siblings(neighbor_i.first);\n\n				for(const auto& sibling: neighbor_siblings) {\n					if (sibling != error_cell) {\n						this->cells_to_unrefine.erase(sibling);\n					}\n				}\n			}\n		}\n\n		for(const auto& neighbor_i: this->neighbors_to.at(cell)) {\n\n			if (this->mapping.get_refinement_level(neighbor_i.first) <= refinement_level) {\n				const auto neighbor_siblings\n					= this->mapping.get_siblings(neighbor_i.first);\n\n				for(const auto& sibling: neighbor_siblings) {\n					if (sibling != error_cell) {\n						this->cells_to_unrefine.erase(sibling);\n					}\n				}\n			}\n		}\n",
     "		for(const auto& neighbor_i: this->neighbors_of.at(cell)) {\n			this->cancel_unrefines_of(neighbor_i.first, refinement_level);\n		}\n		for(const auto& neighbor_i: this->neighbors_to.at(cell)) {\n			this->cancel_unrefines_of(neighbor_i.first, refinement_level);\n		}\n"),
     ("	/*!\n	Starts user data transfers between processes based on cells_to_send and cells_to_receive.\n", "	void cancel_unrefines_of(const uint64_t other, const int max_lvl)\n	{\n		if (this->mapping.get_refinement_level(other) > max_lvl) {\n			return;\n		}\n		for (const auto& s: this->mapping.get_siblings(other)) {\n			if (s == error_cell) continue;\n			this->cells_to_unrefine.erase(s);\n		}\n	}\n\n	/*!\n	Starts user data transfers between processes based on cells_to_send and cells_to_receive.\n"))
same("s-req-flag", ("		// record only one sibling to unrefine / process\n		for(const auto& sibling: siblings) {\n			if (this->cells_to_unrefine.count(sibling) > 0) {\n				return true;\n			}\n		}\n\n		this->cells_to_unrefine.insert(cell);\n", "		// record only one sibling to unrefine / process\n		bool already = false;\n		for(const auto& sibling: siblings) {\n			if (this->cells_to_unrefine.count(sibling) > 0) {\n				already = true;\n				break;\n			}\n		}\n		if (not already) {\n			this->cells_to_unrefine.insert(cell);\n		}\n"))
same("s-req-two-loops", ("		for(const auto& sibling: siblings) {\n\n			// ...has children\n			if (sibling != this->get_child(sibling)) {\n				return false;\n			}\n\n			// ...cannot", "		for(const auto& sibling: siblings) {\n			// ...has children\n			if (sibling != this->get_child(sibling)) {\n				return false;\n			}\n		}\n		for(const auto& sibling: siblings) {\n			// ...cannot"))
same("s-induce-lambda", ("			for (const uint64_t refined: all_new_refines.at(this->rank)) {\n", "			for (size_t k = 0; k < all_new_refines.at(this->rank).size(); k++) {\n				const uint64_t refined = all_new_refines.at(this->rank)[k];\n"))
same("s-induce-flat", ("					if (this->mapping.get_refinement_level(neighbor) < this->mapping.get_refinement_level(refined)) {\n						if (this->cells_to_refine.count(neighbor) == 0) {\n							unique_induced_refines.insert(neighbor);\n						}\n					}\n", "					if (this->mapping.get_refinement_level(neighbor) >= this->mapping.get_refinement_level(refined)) {\n						continue;\n					}\n					if (this->cells_to_refine.count(neighbor) > 0) {\n						continue;\n					}\n					unique_induced_refines.insert(neighbor);\n"))
same("s-induce-for", ("			new_refines.insert(\n				new_refines.end(),\n				unique_induced_refines.begin(),\n				unique_induced_refines.end()\n			);\n			this->cells_to_refine.insert(\n				unique_induced_refines.begin(),\n				unique_induced_refines.end()\n			);\n", "			for (const auto& induced: unique_induced_refines) {\n				new_refines.push_back(induced);\n				this->cells_to_refine.insert(induced);\n			}\n"))
same("s-dont-direct", ("					for (const auto& n: *neighs_to) {\n						all_neighbors.insert(n.first);\n					}", "					for (size_t k = 0; k < neighs_to->size(); k++) {\n						all_neighbors.insert((*neighs_to)[k].first);\n					}"))
same("s-dont-while", ("			this->all_to_all_set(new_donts);\n		} while (new_donts.size() > 0);", "			this->all_to_all_set(new_donts);\n			if (new_donts.empty()) {\n				break;\n			}\n		} while (true);"))
same("s-unref-merged", ("				if (ref_lvl == unref_lvl) {\n					// same size neighbor prevents only if it'll be refined\n					if (this->cells_to_refine.count(next) > 0) {\n						can_unrefine = false;\n						break;\n					} else {\n						continue;\n					}\n				}\n", "				// same size neighbor prevents only if it'll be refined\n				if (ref_lvl == unref_lvl and this->cells_to_refine.count(next) == 0) {\n					continue;\n				}\n"))
same("s-unref-begin", ("				const auto next = [&process](){\n					for (const auto& i: process) {\n						return i;\n					}\n					throw std::runtime_error(__FILE__ \"(\" + to_string(__LINE__) + \")\");\n				}();\n", "				const auto next = *process.begin();\n"))
same("s-unref-helper", ("			if (can_unrefine) {\n				final_unrefines.insert(unrefined);\n			}\n", "			if (not can_unrefine) {\n				continue;\n			}\n			final_unrefines.insert(unrefined);\n"))
same("s-exec-helper", ("			// children of refined cells inherit their pin request status\n			if (this->pin_requests.count(refined) > 0) {\n				for (const uint64_t child: children) {\n					this->pin_requests[child] = this->pin_requests.at(refined);\n				}\n				this->pin_requests.erase(refined);\n			}\n			if (this->new_pin_requests.count(refined) > 0) {\n				for (const uint64_t child: children) {\n					this->new_pin_requests[child] = this->new_pin_requests.at(refined);\n				}\n				this->new_pin_requests.erase(refined);\n			}\n",
     "			this->inherit_request(this->pin_requests, refined, children);\n			this->inherit_request(this->new_pin_requests, refined, children);\n"),
     ("	/*!\n	Starts user data transfers between processes based on cells_to_send and cells_to_receive.\n", "	template<class Requests, class Children> void inherit_request(Requests& requests, const uint64_t parent, const Children& children)\n	{\n		if (requests.count(parent) == 0) {\n			return;\n		}\n		for (const auto& c: children) {\n			requests[c] = requests.at(parent);\n		}\n		requests.erase(parent);\n	}\n\n	/*!\n	Starts user data transfers between processes based on cells_to_send and cells_to_receive.\n"))
same("s-exec-bool", ("			const auto process_of_refined = this->cell_process.at(refined);\n", "			const auto process_of_refined = this->cell_process.at(refined);\n			const bool refined_here = process_of_refined == this->rank;\n"), ("			// move user data of refined cells into refined_cell_data\n			if (this->rank == process_of_refined) {", "			// move user data of refined cells into refined_cell_data\n			if (refined_here) {"), ("				if (this->rank == process_of_refined) {\n					this->cell_data[child];", "				if (refined_here) {\n					this->cell_data[child];"))
same("s-exec-two-loops", ("				this->cell_process[child] = process_of_refined;\n\n				if (this->rank == process_of_refined) {\n", "				this->cell_process[child] = process_of_refined;\n			}\n			if (this->rank == process_of_refined) {\n				for (const uint64_t child: children) {\n"))
same("s-exec-ifs", ("			} else if (this->rank == process_of_unrefined) {\n\n				this->cells_to_send", "			}\n			if (this->rank == process_of_unrefined && process_of_parent != this->rank) {\n				this->cells_to_send"), ("			// receive user data of removed cell from its process\n			} else if (this->rank == process_of_parent) {\n", "			// receive user data of removed cell from its process\n			}\n			if (process_of_unrefined != this->rank && this->rank == process_of_parent) {\n"))
same("s-exec-range", ("			for (const auto& sibling: siblings) {\n				all_to_unrefine.insert(sibling);\n			}\n", "			all_to_unrefine.insert(siblings.begin(), siblings.end());\n"))
same("s-exec-erase-unguarded", ("			if (this->new_pin_requests.count(refined) > 0) {\n				for (const uint64_t child: children) {\n					this->new_pin_requests[child] = this->new_pin_requests.at(refined);\n				}\n				this->new_pin_requests.erase(refined);\n			}", "			const auto requested = this->new_pin_requests.find(refined);\n			if (requested != this->new_pin_requests.end()) {\n				const auto target = requested->second;\n				for (const uint64_t child: children) {\n					this->new_pin_requests[child] = target;\n				}\n			}\n			this->new_pin_requests.erase(refined);"))
same("s-exec-index", ("		for (const uint64_t unrefined: all_to_unrefine) {\n			this->cell_data.erase(unrefined);\n		}\n", "		for (auto it = all_to_unrefine.cbegin(); it != all_to_unrefine.cend(); ++it) {\n			this->cell_data.erase(*it);\n		}\n"))
same("s-op-find", ("		if (this->cell_data.count(cell) > 0) {\n			return (Cell_Data*) &(this->cell_data.at(cell));\n		} else if", "		const auto found = this->cell_data.find(cell);\n		if (found != this->cell_data.end()) {\n			return (Cell_Data*) &(found->second);\n		} else if"))
same("s-lb-range", ("		for (std::unordered_map<uint64_t, uint64_t>::const_iterator\n			pin_request = this->pin_requests.begin();\n			pin_request != this->pin_requests.end();\n			pin_request++\n		) {\n			const uint64_t current_process_of_cell = this->cell_process.at(pin_request->first);\n\n			if (pin_request->second == this->rank\n			&& current_process_of_cell != this->rank) {\n				this->cells_to_receive[int(current_process_of_cell)].push_back(\n					std::make_pair(pin_request->first, -1)\n				);\n				this->added_cells.insert(pin_request->first);\n			}\n		}\n", "		for (const auto& item: this->pin_requests) {\n			if (item.second != this->rank) {\n				continue;\n			}\n			const auto owner = this->cell_process.at(item.first);\n			if (owner == this->rank) {\n				continue;\n			}\n			this->added_cells.insert(item.first);\n			this->cells_to_receive[int(owner)].push_back(std::make_pair(item.first, -1));\n		}\n"))
same("s-lb-skip", ("				// don't send / receive from self\n				if ((uint64_t)sender_processes[i] == this->rank) {\n					continue;\n				}\n\n				// skip user-migrated cells\n				if (this->pin_requests.count(global_ids_to_receive[i]) > 0) {\n					continue;\n				}\n", "				const uint64_t from = sender_processes[i];\n				if (from == this->rank or this->pin_requests.count(global_ids_to_receive[i]) > 0) {\n					continue;\n				}\n"))
same("s-lb-merge", ("		for (uint64_t process = 0; process < all_new_pinned_cells.size(); process++) {\n			for (uint64_t i = 0; i < all_new_pinned_cells.at(process).size(); i++) {\n\n				const uint64_t requested_process = all_new_pinned_processes[process][i];\n\n				if (requested_process >= this->comm_size) {\n					this->pin_requests.erase(all_new_pinned_cells[process][i]);\n				} else {\n					this->pin_requests[all_new_pinned_cells[process][i]] = requested_process;\n				}\n", "		for (uint64_t process = 0; process < all_new_pinned_cells.size(); process++) {\n			const auto& pinned = all_new_pinned_cells[process];\n			const auto& targets = all_new_pinned_processes[process];\n			for (uint64_t i = 0; i < pinned.size(); i++) {\n				if (targets[i] < this->comm_size) {\n					this->pin_requests[pinned[i]] = targets[i];\n				} else {\n					this->pin_requests.erase(pinned[i]);\n				}\n"))
same("s-lb-islocal", ("		if (this->cell_process.count(cell) == 0) {\n			return false;\n		}\n\n		if (this->cell_process.at(cell) != this->rank) {\n			return false;\n		}\n\n		if (cell != this->get_child(cell)) {\n			return false;\n		}\n\n		if (process < 0 || process >= (int) this->comm_size) {\n			return false;\n		}\n", "		if (process < 0 || process >= (int) this->comm_size) {\n			return false;\n		}\n\n		if (not this->is_local(cell)) {\n			return false;\n		}\n"))
same("s-lb-helper", ("		this->cells_to_refine.clear();\n		this->refined_cell_data.clear();\n		this->cells_to_unrefine.clear();\n		this->unrefined_cell_data.clear();\n		this->cells_not_to_refine.clear();\n		this->cells_not_to_unrefine.clear();\n		this->cell_weights.clear();\n", "		this->forget_requests();\n		this->refined_cell_data.clear();\n		this->unrefined_cell_data.clear();\n		this->cell_weights.clear();\n"),
     ("	/*!\n	Starts user data transfers between processes based on cells_to_send and cells_to_receive.\n", "	void forget_requests()\n	{\n		this->cells_to_refine.clear();\n		this->cells_to_unrefine.clear();\n		this->cells_not_to_refine.clear();\n		this->cells_not_to_unrefine.clear();\n	}\n\n	/*!\n	Starts user data transfers between processes based on cells_to_send and cells_to_receive.\n"))
same("s-lb-owner", ("		for (const uint64_t removed_cell: this->removed_cells) {\n			this->cell_data.erase(removed_cell);\n		}\n", "		for (auto i = this->removed_cells.begin(); i != this->removed_cells.end(); ++i) {\n			this->cell_data.erase(*i);\n		}\n"))
same("c11-helper", ("	/*!\n	Writes the number of neighbors into number_of_neighbors for all cells given in global_ids.", "	static bool is_edge(const uint64_t cell, const uint64_t neighbor)\n	{\n		return neighbor != 0 and neighbor != cell;\n	}\n\n	/*!\n	Writes the number of neighbors into number_of_neighbors for all cells given in global_ids."),
     ("				if (neighbor == 0\n				/* Zoltan 3.501 crashes in hierarchial\n				if a cell is a neighbor to itself */\n				|| neighbor == cell) {", "				if (not is_edge(cell, neighbor)) {"),
     ("				if (neighbor != 0\n				/* Zoltan 3.501 crashes in hierarchial\n				if a cell is a neighbor to itself */\n				&& neighbor != cell) {", "				if (is_edge(cell, neighbor)) {"))
same("c11-local-count", ("			number_of_neighbors[i] = 0;\n			for (const auto& neighbor_i: dccrg_instance->neighbors_of.at(cell)) {\n				const auto& neighbor = neighbor_i.first;\n				if (neighbor != 0", "			int count = 0;\n			for (const auto& neighbor_i: dccrg_instance->neighbors_of.at(cell)) {\n				const auto& neighbor = neighbor_i.first;\n				if (neighbor != 0"),
     (("					number_of_neighbors[i]++;\n				}\n			}\n", 1), "					count++;\n				}\n			}\n			number_of_neighbors[i] = count;\n"))
same("c11-ternary", ("				if (dccrg_instance->cell_weights.count(item.first) > 0) {\n					object_weights[i] = float(dccrg_instance->cell_weights.at(item.first));\n				} else {\n					object_weights[i] = 1;\n				}\n", "				const auto weight = dccrg_instance->cell_weights.find(item.first);\n				object_weights[i] = weight != dccrg_instance->cell_weights.end() ? float(weight->second) : 1.0f;\n"))
same("c11-weight-default", ("				if (dccrg_instance->cell_weights.count(item.first) > 0) {\n					object_weights[i] = float(dccrg_instance->cell_weights.at(item.first));\n				} else {\n					object_weights[i] = 1;\n				}\n", "				object_weights[i] = 1;\n				if (dccrg_instance->cell_weights.count(item.first) > 0) {\n					object_weights[i] = float(dccrg_instance->cell_weights.at(item.first));\n				}\n"))
same("c11-coord-loop", ("			geom_vec[3 * i + 0] = coordinate[0];\n			geom_vec[3 * i + 1] = coordinate[1];\n			geom_vec[3 * i + 2] = coordinate[2];\n", "			for (size_t dim = 0; dim < 3; dim++) {\n				geom_vec[3 * i + dim] = coordinate[dim];\n			}\n"))
same("c11-cursor", ("			connections[connection_number++] = item.first;\n", "			connections[connection_number] = item.first;\n			connection_number++;\n"),
     ("				connections[connection_number++] = neighbor;\n", "				connections[connection_number] = neighbor;\n				connection_number += 1;\n"))
same("c12-erase-helper", ("		this->user_hood_of.erase(neighborhood_id);\n		this->user_hood_to.erase(neighborhood_id);\n", "		this->forget_offsets(neighborhood_id);\n"), ("	/*!\n	Starts user data transfers between processes based on cells_to_send and cells_to_receive.\n", "	void forget_offsets(const int neighborhood_id)\n	{\n		this->user_hood_of.erase(neighborhood_id);\n		this->user_hood_to.erase(neighborhood_id);\n	}\n\n	/*!\n	Starts user data transfers between processes based on cells_to_send and cells_to_receive.\n"))
same("c12-any-zero", ("				if (neigh_item[0] == 0 && neigh_item[1] == 0 && neigh_item[2] == 0) {\n					return false;\n				}", "				bool all_zero = true;\n				for (size_t i = 0; i < 3; i++) {\n					if (neigh_item[i] != 0) {\n						all_zero = false;\n					}\n				}\n				if (all_zero) {\n					return false;\n				}"))
same("c12-bounds", ("					if ((unsigned int) abs(neigh_item[i]) > this->neighborhood_length) {", "					const unsigned int distance = abs(neigh_item[i]);\n					if (this->neighborhood_length < distance) {"))
same("c12-order", ("		this->allocate_copies_of_remote_neighbors();\n\n		this->update_cell_pointers_user(neighborhood_id);", "		this->update_cell_pointers_user(neighborhood_id);\n		this->allocate_copies_of_remote_neighbors();"))
same("c12-split-check", ("		if (this->neighborhood_length > 0) {\n\n			for (const auto& neigh_item: given_neigh) {\n				for (size_t i = 0; i < 3; i++) {\n					if ((unsigned int) abs(neigh_item[i]) > this->neighborhood_length) {\n						return false;\n					}\n				}\n", "		if (this->neighborhood_length > 0) {\n\n			for (const auto& neigh_item: given_neigh) {\n				for (size_t i = 0; i < 3; i++) {\n					if ((unsigned int) abs(neigh_item[i]) > this->neighborhood_length) {\n						return false;\n					}\n				}\n			}\n			for (const auto& neigh_item: given_neigh) {\n"))
same("c22-noclear", ("dccrg_mpi_support.hpp", "		result.clear();\n", ""))
same("c22-assign", ("dccrg_mpi_support.hpp", "			result[i].resize(send_counts[i]);\n", "			result[i].resize(send_counts[i], 0);\n"))
same("c22-data", ("dccrg_mpi_support.hpp", "				&(temp_result[0]),", "				temp_result.data(),"))
same("c22-reduce", ("dccrg_mpi_support.hpp", "		uint64_t result = value;\n		for (const int process: neighbors) {\n			result += receive_requests.at(process).second;\n		}\n", "		uint64_t result = value;\n		for (const auto& received: receive_requests) {\n			result += received.second.second;\n		}\n"))
same("c22-disp", ("dccrg_mpi_support.hpp", "			displacements[i] += send_counts[i - 1] + displacements[i - 1];", "			displacements[i] = displacements[i - 1] + send_counts[i - 1];"))
same("c22-fill", ("dccrg_mpi_support.hpp", "			for (int i = 0; i < send_counts[proc]; i++) {\n				result[proc][i] = temp_result[index_in_temp];\n				index_in_temp++;\n			}", "			for (auto& item: result[proc]) {\n				item = temp_result[index_in_temp++];\n			}"))
same("c19-more", (("		#ifdef DEBUG\n		if (!this->is_consistent()) {", 1), "		#ifdef DEBUG\n		const auto ids = this->cell_process.size();\n		size_t counted = 0;\n		for (const auto& item: this->cell_process) { if (item.first > 0) { counted++; } }\n		if (counted > ids) { std::cerr << \"odd\" << std::endl; abort(); }\n		if (!this->is_consistent()) {"))
same("c20-worklist", ("		// set user_hood_of and _to\n", "		std::vector<int> work{1};\n		for (size_t i = 0; i < work.size(); i++) { if (work[i] < 3) { work.push_back(work[i] + 1); } }\n		for (auto it = this->cell_weights.begin(); it != this->cell_weights.end(); ) { if (this->cell_process.count(it->first) == 0) { it = this->cell_weights.erase(it); } else { ++it; } }\n		for (const auto& item: this->cell_weights) { if (item.first == 0) { this->cell_weights.erase(item.first); break; } }\n		// set user_hood_of and _to\n"))
same("c16-shift-small", ("dccrg_mapping.hpp", "		return uint64_t(1) << (this->max_refinement_level - refinement_level);", "		return 1u << (this->max_refinement_level - refinement_level);"))
same("c16-length-div", ("dccrg_length.hpp", "		if (max_number_of_initial_cells > double(~uint64_t(0))) {", "		if (this->length[0] > ~uint64_t(0) / this->length[1] / this->length[2]) {"))
same("c16-length-loop", ("dccrg_length.hpp", "		const double max_number_of_initial_cells\n			= double(this->length[0])\n			* double(this->length[1])\n			* double(this->length[2]);", "		double max_number_of_initial_cells = 1;\n		for (size_t i = 0; i < 3; i++) {\n			max_number_of_initial_cells *= double(this->length[i]);\n		}"))
same("c16-count-int", ("		uint64_t number_of_cells = this->cell_data.size();\n", "		const int cells_here = int(this->cell_data.size());\n		(void) cells_here;\n		uint64_t number_of_cells = this->cell_data.size();\n"))
MPF = "dccrg_mapping.hpp"
same("c23-dims", (MPF, "		if (indices[0] >= this->length.get()[0] * (uint64_t(1) << this->max_refinement_level)) {\n			return error_cell;\n		}\n\n		if (indices[1] >= this->length.get()[1] * (uint64_t(1) << this->max_refinement_level)) {\n			return error_cell;\n		}\n\n		if (indices[2] >= this->length.get()[2] * (uint64_t(1) << this->max_refinement_level)) {\n			return error_cell;\n		}\n", "		for (size_t d = 0; d < 3; d++) {\n			const auto end = this->length.get()[d] << this->max_refinement_level;\n			if (indices[d] >= end) {\n				return error_cell;\n			}\n		}\n"))
same("c23-ret", (MPF, "		if (refinement_level == 0) {\n			return cell;\n		}\n\n		return this->get_cell_from_indices(this->get_indices(cell), refinement_level - 1);", "		uint64_t ret = cell;\n		if (refinement_level > 0) {\n			ret = this->get_cell_from_indices(this->get_indices(cell), refinement_level - 1);\n		}\n		return ret;"))
same("c23-ternary", (MPF, "		if (refinement_level == 0) {\n			return cell;\n		}\n\n		return this->get_cell_from_indices(this->get_indices(cell), 0);", "		return refinement_level == 0 ? cell : this->get_cell_from_indices(this->get_indices(cell), 0);"))
same("c23-early", (MPF, "			this->max_refinement_level = given_refinement_level;\n			this->update_last_cell();\n			return true;\n		} else {\n			return false;\n		}", "		} else {\n			return false;\n		}\n		this->max_refinement_level = given_refinement_level;\n		this->update_last_cell();\n		return true;"))
same("c23-valid-helper", (MPF, "	uint64_t get_child(const uint64_t cell) const\n	{\n		if (cell == error_cell or cell > this->get_last_cell()) {", "	bool is_invalid(const uint64_t cell) const { return cell == error_cell or cell > this->get_last_cell(); }\n\n	uint64_t get_child(const uint64_t cell) const\n	{\n		if (this->is_invalid(cell)) {"))
same("c23-level-switch", (MPF, "		const int refinement_level = this->get_refinement_level(cell);\n\n		if (refinement_level >= this->get_maximum_refinement_level()) {\n			return cell;", "		const int refinement_level = this->get_refinement_level(cell);\n\n		if (refinement_level == this->max_refinement_level) {\n			return cell;"))
same("c23-children-level", (MPF, "		int refinement_level = this->get_refinement_level(cell);\n		if (refinement_level < 0 || refinement_level >=", "		const int own_level = this->get_refinement_level(cell);\n		int refinement_level = own_level;\n		if (own_level < 0 || own_level >="))
same("c23-level-for", (MPF, "		while (refinement_level <= this->max_refinement_level) {\n			current_last +=", "		for (; refinement_level <= this->max_refinement_level; refinement_level++) {\n			current_last +="), (MPF, "				break;\n			}\n\n			refinement_level++;\n", "				break;\n			}\n"))
CGF = "dccrg_cartesian_geometry.hpp"
same("c14-loop", (CGF, "		if (\n			index[0] >= max_index[0]\n			|| index[1] >= max_index[1]\n			|| index[2] >= max_index[2]\n		) {\n			return error_val;\n		}", "		for (size_t i = 0; i < 3; i++) {\n			if (index[i] >= max_index[i]) {\n				return error_val;\n			}\n		}"))
same("c14-continue", (CGF, "			if (coordinate[dimension] >= grid_start[dimension]\n			&& coordinate[dimension] <= grid_end[dimension]) {\n", "			if (!(coordinate[dimension] >= grid_start[dimension])\n			|| !(coordinate[dimension] <= grid_end[dimension])) {\n				continue;\n			}\n			{\n"))
same("c14-dims", (CGF, "for (size_t dimension = 0; dimension < given_coordinate.size(); dimension++) {\n\n			if (coordinate", "for (int dimension = 0; dimension < 3; dimension++) {\n\n			if (coordinate"))
SGF = "dccrg_stretched_cartesian_geometry.hpp"
same("c15-from1", (SGF, "			for (uint64_t i = 0; i < given_parameters.coordinates[dimension].size() - 1; i++) {\n				if (\n					given_parameters.coordinates[dimension][i]\n					>= given_parameters.coordinates[dimension][i + 1]\n				) {", "			for (uint64_t i = 1; i < given_parameters.coordinates[dimension].size(); i++) {\n				if (\n					given_parameters.coordinates[dimension][i - 1]\n					>= given_parameters.coordinates[dimension][i]\n				) {"))
same("c15-coords", (SGF, "		for (size_t\n			dimension = 0;\n			dimension < given_parameters.coordinates.size();\n			dimension++\n		) {\n			if (given_parameters.coordinates[dimension].size() < 2) {", "		for (size_t dimension = 0; dimension < 3; dimension++) {\n			const auto& values = given_parameters.coordinates[dimension];\n			if (values.size() < 2) {"))
same("c15-local-length", ("dccrg_length.hpp", "		const Grid_Length::type old_length = this->length;\n\n		this->length = given_length;\n\n		const double max_number_of_initial_cells\n			= double(this->length[0])\n			* double(this->length[1])\n			* double(this->length[2]);", "		const double max_number_of_initial_cells\n			= double(given_length[0])\n			* double(given_length[1])\n			* double(given_length[2]);"), ("dccrg_length.hpp", "			this->length = old_length;\n			return false;\n		}\n", "			return false;\n		}\n		this->length = given_length;\n"))
same("c15-reserved-list", ("		this->reserved_options.insert(\"EDGE_WEIGHT_DIM\");\n		this->reserved_options.insert(\"NUM_GID_ENTRIES\");\n", "		this->reserved_options = {\"EDGE_WEIGHT_DIM\", \"NUM_GID_ENTRIES\"};\n"))
same("c15-level-valid", ("		if (hierarchial_partitioning_level < 0\n		|| hierarchial_partitioning_level >= int(this->processes_per_part.size())) {\n			return *this;\n		}\n\n		this->processes_per_part.erase(", "		const int levels = int(this->partitioning_options.size());\n		if (hierarchial_partitioning_level < 0 || levels <= hierarchial_partitioning_level) {\n			return *this;\n		}\n\n		this->processes_per_part.erase("))
same("c15-periodic", ("dccrg_topology.hpp", "if (index > 2) {", "if (index >= 3) {"))

# C13 copies
same("c13-body", ("		send_single_cells(other.get_send_single_cells()),\n", ""), ("		if (other.get_balancing_load()) {\n			std::cerr", "		this->send_single_cells = other.get_send_single_cells();\n		if (other.get_balancing_load()) {\n			std::cerr"))
same("c13-loop", ("		for (typename std::unordered_map<uint64_t, Other_Cell_Data>::const_iterator\n			cell_item = other.get_cell_data().begin();\n			cell_item != other.get_cell_data().end();\n			cell_item++\n		) {\n			this->cell_data[cell_item->first];\n		}", "		for (const auto& item: other.get_cell_data()) {\n			const uint64_t cell = item.first;\n			this->cell_data.emplace(cell, Cell_Data());\n		}"))
same("c13-geom", ("		if (!this->geometry_rw.set(other.geometry)) {", "		const bool geometry_ok = this->geometry_rw.set(other.geometry);\n		if (not geometry_ok) {"))
same("c13-order", ("		this->zoltan = Zoltan_Copy(other.get_zoltan());\n", "		const auto* const other_zoltan = other.get_zoltan();\n		this->zoltan = Zoltan_Copy(other_zoltan);\n"))
same("c13-params", (CGF if "CGF" in globals() else "dccrg_cartesian_geometry.hpp", "		return this->set(other.get());", "		const Parameters& params = other.get();\n		return this->set(params);"))

# C21 iteration
same("c21-snapshot", ("			ordered_cells.push_back(item.first);\n			nr_inner++;\n			if", "			ordered_cells.push_back(item.first);\n			if"), ("		// local cells with remote neighbor(s)\n		for (const auto& item: this->cell_data) {", "		nr_inner = ordered_cells.size();\n		// local cells with remote neighbor(s)\n		for (const auto& item: this->cell_data) {"))
same("c21-plus", ("		std::advance(inner_cells.end_, nr_inner);\n", "		inner_cells.end_ += nr_inner;\n"), ("		std::advance(outer_cells.begin_, nr_inner);\n", "		outer_cells.begin_ = cells.cbegin() + nr_inner;\n"), ("		std::advance(local_cells.end_, nr_inner + nr_outer);\n", "		local_cells.end_ = outer_cells.end_;\n"), ("		std::advance(all_cells.end_, nr_inner + nr_outer + nr_remote);\n", "		all_cells.end_ = cells.cend();\n"))
same("c21-total", ("		std::advance(outer_cells.end_, nr_inner + nr_outer);\n		std::advance(local_cells.end_, nr_inner + nr_outer);\n", "		const size_t nr_local = nr_inner + nr_outer;\n		std::advance(outer_cells.end_, nr_local);\n		std::advance(local_cells.end_, nr_local);\n"))
same("c21-merged", ("			for (const auto& n: ids_to) {\n				only_neighbors_to.insert(n);\n			}\n", "			only_neighbors_to = ids_to;\n"))
same("c21-neigh-end", ("			std::advance(\n				cells[i].all_neighbors.end_,\n				nr_neighbors[i][0] + nr_neighbors[i][1] + nr_neighbors[i][2] + nr_neighbors[i][3]\n			);", "			cells[i].all_neighbors.end_ = cells[i].neighbors_to.end_;"))
same("c21-filter", ("			for (const auto& n: *neighbors_of) {\n				if (n.first != error_cell) {\n					ids_of.insert(n);\n				}\n			}", "			for (const auto& n: *neighbors_of) {\n				if (n.first == error_cell) {\n					continue;\n				}\n				ids_of.insert(n);\n			}"))

# C18 dimensions
same("c18-topology", ("		this->topology_rw.set_periodicity(0, x);\n		this->topology_rw.set_periodicity(1, y);\n		this->topology_rw.set_periodicity(2, z);", "		const std::array<bool, 3> periodic{{x, y, z}};\n		for (size_t i = 0; i < 3; i++) {\n			this->topology_rw.set_periodicity(i, periodic[i]);\n		}"))

# C24 numbers
same("c24-geometric", ("dccrg_mapping.hpp", "		for (int i = 0; i < refinement_level; i++) {\n			cell +=\n				  this->length.get()[0]\n				* this->length.get()[1]\n				* this->length.get()[2]\n				* (uint64_t(1) << (i * 3));\n		}", "		uint64_t cells_in_level = this->length.get()[0] * this->length.get()[1] * this->length.get()[2];\n		for (int i = 0; i < refinement_level; i++) {\n			cell += cells_in_level;\n			cells_in_level *= 8;\n		}"))
same("c24-original", ("dccrg_mapping.hpp", "		cell -= 1;	// cell numbering starts from 1\n", "		const uint64_t number = cell;\n		cell = number - 1;	// cell numbering starts from 1\n"))
same("c24-loop", ("dccrg_cartesian_geometry.hpp", "			ret_val = {{\n				center[0] - length[0] / 2,\n				center[1] - length[1] / 2,\n				center[2] - length[2] / 2\n			}};\n", "			unused = center;\n		(void) unused;\n		std::array<double, 3> ret_val;\n		for (size_t i = 0; i < 3; i++) {\n			ret_val[i] = center[i] - 0.5 * length[i];\n		}\n"))
same("c24-shift", ("dccrg_mapping.hpp", "			indices[0] / (uint64_t(1) << (this->max_refinement_level - refinement_level)),\n", "			indices[0] >> (this->max_refinement_level - refinement_level),\n"))
same("c24-hoist", ("dccrg_mapping.hpp", "		cell -= 1;	// cell numbering starts from 1\n		const Types<3>::indices_t indices = {{\n\n			  (cell % (this->length.get()[0] * (uint64_t(1) << refinement_level)))\n", "		cell--;	// cell numbering starts from 1\n		const uint64_t length_x = this->length.get()[0] * (uint64_t(1) << refinement_level);\n		const Types<3>::indices_t indices = {{\n\n			  (cell % length_x)\n"))
_LEVEL = '\t\tint refinement_level = 0;\n\t\tuint64_t current_last = 0;\n\n\t\twhile (refinement_level <= this->max_refinement_level) {\n\t\t\tcurrent_last +=\n\t\t\t\t  this->length.get()[0]\n\t\t\t\t* this->length.get()[1]\n\t\t\t\t* this->length.get()[2]\n\t\t\t\t* (uint64_t(1) << 3 * refinement_level);\n\n\t\t\tif (cell <= current_last) {\n\t\t\t\tbreak;\n\t\t\t}\n\n\t\t\trefinement_level++;\n\t\t}\n\n\t\tif (refinement_level > this->max_refinement_level) {\n\t\t\treturn -1;\n\t\t}\n\n'
same("c24-level-for", ("dccrg_mapping.hpp", _LEVEL, "		uint64_t current_last = 0;\n		for (int level = 0; level <= this->max_refinement_level; level++) {\n			current_last += this->length.get()[0] * this->length.get()[1] * this->length.get()[2] * (uint64_t(1) << (3 * level));\n			if (cell <= current_last) {\n				return level;\n			}\n		}\n		const int refinement_level = -1;\n"))
same("c24-level-while", ("dccrg_mapping.hpp", _LEVEL, "		int refinement_level = 0;\n		uint64_t current_last = this->length.get()[0] * this->length.get()[1] * this->length.get()[2];\n		while (current_last < cell) {\n			refinement_level++;\n			current_last += this->length.get()[0] * this->length.get()[1] * this->length.get()[2] * (uint64_t(1) << (3 * refinement_level));\n		}\n"))

# C25 neighbor searches
same("c25-helper", ("					if (neighs[0] != error_cell) {\n						offset = adjust_offset(offset, current, neighs[0], -1);\n					}\n					current = neighs[0];\n", "					const auto next = neighs[0];\n					if (next != error_cell) {\n						offset = adjust_offset(offset, current, next, -1);\n					}\n					current = next;\n"))
same("c25-sib", ("			if (current_i % 2 > 0) {\n				offset[0] -= curr_len;", "			if (current_i % 2 == 1) {\n				offset[0] -= curr_len;"), ("			if (current_i > 3) {", "			if (current_i >= 4) {"))
same("c25-while", ("				   offset[0] + curr_len - 1 < off_start[0] or offset[0] > off_end[0]\n", "				   offset[0] + curr_len <= off_start[0] or offset[0] > off_end[0]\n"))
same("c25-flip", ("							if (temp_indices[dimension] < grid_length[dimension] - length_in_indices) {\n								temp_indices[dimension] += length_in_indices;\n							} else {\n								temp_indices[dimension] = 0;\n							}", "							if (temp_indices[dimension] + length_in_indices >= grid_length[dimension]) {\n								temp_indices[dimension] = 0;\n							} else {\n								temp_indices[dimension] += length_in_indices;\n							}"))
same("c25-off", ("				if (from_len == to_len) {\n					offset[2] += from_len;\n				} else {\n					if (from_len < to_len) {", "				if (from_len == to_len) {\n					offset[2] += to_len;\n				} else {\n					if (to_len > from_len) {"))
same("c25-lvl", ("					if (ref_lvl == 0) {\n						return 0;\n					} else {\n						return ref_lvl - 1;\n					}", "					if (ref_lvl > 0) {\n						return ref_lvl - 1;\n					}\n					return 0;"))
same("c25-face", ("				max_index < cell_length\n				or search_indices[dir_i][dim_i] > max_index - cell_length\n", "				search_indices[dir_i][dim_i] + cell_length > max_index\n"))
same("c25-to", ("				const auto& search_index = search_indices[i];\n\n				if (search_index[0] == error_index) {\n					continue;\n				}\n\n				const uint64_t found\n					= this->mapping.get_cell_from_indices(search_index, refinement_level - 1);\n\n				// only add if found cell doesn't have children\n				if (found == this->get_child(found)) {", "				const auto& search_index = search_indices[i];\n				if (search_index[0] == error_index) continue;\n				const int parent_level = refinement_level - 1;\n				const uint64_t found = this->mapping.get_cell_from_indices(search_index, parent_level);\n				const bool has_children = this->get_child(found) != found;\n				if (not has_children) {"))
same("c25-siblings", ("			if (curr_len >= cell_length) {\n				return_neighbors.emplace_back(current, offset);\n				continue;", "			if (not (curr_len < cell_length)) {\n				return_neighbors.push_back(std::make_pair(current, offset));\n				continue;"))
same('c29-ternary', ('\t\t\tuint64_t cells_to_create;\n\t\t\tif (process < procs_with_fewer) {\n\t\t\t\tcells_to_create = cells_per_process - 1;\n\t\t\t} else {\n\t\t\t\tcells_to_create = cells_per_process;\n\t\t\t}\n', '\t\t\tconst uint64_t cells_to_create = (process < procs_with_fewer) ? cells_per_process - 1 : cells_per_process;\n'))
same('c29-faces-list', ('\t\t\t{\n\t\t\tthis->neighborhood_of.push_back({0, 0, -1});\n\t\t\t}\n', '\t\t\tconst std::vector<Types<3>::neighborhood_item_t> faces{{{0, 0, -1}}, {{0, -1, 0}}, {{-1, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}};\n\t\t\tfor (const auto& face: faces) {\n\t\t\t\tthis->neighborhood_of.push_back(face);\n\t\t\t}\n'), ('\t\t\t{\n\t\t\tTypes<3>::neighborhood_item_t item = {{0, -1, 0}};\n\t\t\tthis->neighborhood_of.push_back(item);\n\t\t\t}\n', ''), ('\t\t\t{\n\t\t\tTypes<3>::neighborhood_item_t item = {{-1, 0, 0}};\n\t\t\tthis->neighborhood_of.push_back(item);\n\t\t\t}\n', ''), ('\t\t\t{\n\t\t\tTypes<3>::neighborhood_item_t item = {{1, 0, 0}};\n\t\t\tthis->neighborhood_of.push_back(item);\n\t\t\t}\n', ''), ('\t\t\t{\n\t\t\tTypes<3>::neighborhood_item_t item = {{0, 1, 0}};\n\t\t\tthis->neighborhood_of.push_back(item);\n\t\t\t}\n', ''), ('\t\t\t{\n\t\t\tTypes<3>::neighborhood_item_t item = {{0, 0, 1}};\n\t\t\tthis->neighborhood_of.push_back(item);\n\t\t\t}\n', ''))
same('c29-loops', ('\t\t\tfor (int\n\t\t\t\tz = -this->neighborhood_length;\n\t\t\t\t(unsigned int) abs(z) < this->neighborhood_length + 1;\n\t\t\t\tz++\n\t\t\t)\n\t\t\tfor (int\n\t\t\t\ty = -this->neighborhood_length;\n\t\t\t\t(unsigned int) abs(y) < this->neighborhood_length + 1;\n\t\t\t\ty++\n\t\t\t)\n\t\t\tfor (int\n\t\t\t\tx = -this->neighborhood_length;\n\t\t\t\t(unsigned int) abs(x) < this->neighborhood_length + 1;\n\t\t\t\tx++\n\t\t\t) {\n\t\t\t\tif (x == 0 && y == 0 && z == 0) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tconst Types<3>::neighborhood_item_t item = {{x, y, z}};\n\t\t\t\tthis->neighborhood_of.push_back(item);\n\t\t\t}\n', '\t\t\tconst int length = int(this->neighborhood_length);\n\t\t\tfor (int z = -length; z <= length; z++) {\n\t\t\t\tfor (int y = -length; y <= length; y++) {\n\t\t\t\t\tfor (int x = -length; x <= length; x++) {\n\t\t\t\t\t\tif (x != 0 || y != 0 || z != 0) {\n\t\t\t\t\t\t\tthis->neighborhood_of.push_back({{x, y, z}});\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n'))
same('c29-while-parents', ('\t\t\tfor (int i = refinement_level - 1; i >= 0; i--) {\n\t\t\t\tconst uint64_t parent = this->mapping.get_parent(current_child);\n\t\t\t\tcells_and_parents[i].insert(parent);\n\t\t\t\tcurrent_child = parent;\n\t\t\t}\n', '\t\t\tint level = refinement_level;\n\t\t\twhile (level > 0) {\n\t\t\t\tcurrent_child = this->mapping.get_parent(current_child);\n\t\t\t\tlevel--;\n\t\t\t\tcells_and_parents[level].insert(current_child);\n\t\t\t}\n'))
same('c29-overlap', ('\t\tif (this->cell_process.count(parent) > 0\n\t\t&& this->cell_process.at(parent) == this->rank) {\n\t\t\treturn true;\n\t\t} else {\n\t\t\treturn false;\n\t\t}\n\t}\n\n\n\t/*!\n\tReturns those', '\t\tconst auto owner = this->cell_process.find(parent);\n\t\treturn owner != this->cell_process.end() && owner->second == this->rank;\n\t}\n\n\n\t/*!\n\tReturns those'))
same('c29-per-process', ('\t\tif (total_cells < this->comm_size) {\n\t\t\tcells_per_process = 1;\n\t\t} else if (total_cells % this->comm_size > 0) {\n\t\t\tcells_per_process = total_cells / this->comm_size + 1;\n\t\t} else {\n\t\t\tcells_per_process = total_cells / this->comm_size;\n\t\t}\n', '\t\tcells_per_process = (total_cells + this->comm_size - 1) / this->comm_size;\n'))
same('n-lists-helper', ('\t\t// populate final send list data structures and sort them\n\t\tfor (const auto& receiver: unique_cells_to_send) {\n\t\t\tconst int process = receiver.first;\n\n\t\t\t#ifdef DEBUG\n\t\t\tif ((uint64_t) process == this->rank) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << process << " would send to self"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tthis->cells_to_send[process].reserve(receiver.second.size());\n\n\t\t\tfor (const uint64_t cell: receiver.second) {\n\t\t\t\tthis->cells_to_send.at(process).push_back(\n\t\t\t\t\tstd::make_pair(cell, -1)\n\t\t\t\t);\n\t\t\t}\n\n\t\t\tif (this->cells_to_send.at(process).size() > 0) {\n\t\t\t\tstd::sort(\n\t\t\t\t\tthis->cells_to_send.at(process).begin(),\n\t\t\t\t\tthis->cells_to_send.at(process).end()\n\t\t\t\t);\n\t\t\t}\n\n\t\t\t// sequential tags for messages: 1, 2, ...\n\t\t\tfor (size_t i = 0; i < this->cells_to_send.at(process).size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tconst uint64_t cell = this->cells_to_send.at(process)[i].first;\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << cell\n\t\t\t\t\t\t<< " to process " << process\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tthis->cells_to_send.at(process)[i].second = tag;\n\t\t\t}\n\t\t}\n\n', '\t\tthis->fill_transfer_list(unique_cells_to_send, this->cells_to_send);\n'), ('\t\t// populate final receive list data structures and sort them\n\t\tfor (const auto& sender: unique_cells_to_receive) {\n\t\t\tconst int process = sender.first;\n\n\t\t\t#ifdef DEBUG\n\t\t\tif ((uint64_t) process == this->rank) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << process << " would receive from self"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tthis->cells_to_receive[process].reserve(sender.second.size());\n\n\t\t\tfor (const uint64_t cell: sender.second) {\n\t\t\t\tthis->cells_to_receive.at(process).push_back(\n\t\t\t\t\tstd::make_pair(cell, -1)\n\t\t\t\t);\n\t\t\t}\n\n\t\t\tif (this->cells_to_receive.at(process).size() > 0) {\n\t\t\t\tstd::sort(\n\t\t\t\t\tthis->cells_to_receive.at(process).begin(),\n\t\t\t\t\tthis->cells_to_receive.at(process).end()\n\t\t\t\t);\n\t\t\t}\n\n\t\t\t// sequential tags for messages: 1, 2, ...\n\t\t\tfor (size_t i = 0; i < this->cells_to_receive.at(process).size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tconst uint64_t cell = this->cells_to_receive.at(process)[i].first;\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << cell\n\t\t\t\t\t\t<< " from process " << process\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tthis->cells_to_receive.at(process)[i].second = tag;\n\t\t\t}\n\t\t}\n', '\t\tthis->fill_transfer_list(unique_cells_to_receive, this->cells_to_receive);\n'), ('\tvoid recalculate_neighbor_update_send_receive_lists()\n\t{\n\t\t// clear previous lists', '\tvoid fill_transfer_list(\n\t\tconst std::unordered_map<int, std::unordered_set<uint64_t>>& unique_cells,\n\t\tstd::unordered_map<int, std::vector<std::pair<uint64_t, int>>>& list\n\t) const {\n\t\tfor (const auto& item: unique_cells) {\n\t\t\tstd::vector<std::pair<uint64_t, int>>& cells = list[item.first];\n\t\t\tcells.reserve(item.second.size());\n\t\t\tfor (const uint64_t cell: item.second) {\n\t\t\t\tcells.push_back(std::make_pair(cell, -1));\n\t\t\t}\n\t\t\tstd::sort(cells.begin(), cells.end());\n\t\t\tint tag = 1;\n\t\t\tfor (auto& cell: cells) {\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << "Message tag would overflow" << std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tcell.second = tag++;\n\t\t\t}\n\t\t}\n\t}\n\n\tvoid recalculate_neighbor_update_send_receive_lists()\n\t{\n\t\t// clear previous lists'))
same('n-lists-ref', ('\t\t// populate final send list data structures and sort them\n\t\tfor (const auto& receiver: unique_cells_to_send) {\n\t\t\tconst int process = receiver.first;\n\n\t\t\t#ifdef DEBUG\n\t\t\tif ((uint64_t) process == this->rank) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << process << " would send to self"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tthis->cells_to_send[process].reserve(receiver.second.size());\n\n\t\t\tfor (const uint64_t cell: receiver.second) {\n\t\t\t\tthis->cells_to_send.at(process).push_back(\n\t\t\t\t\tstd::make_pair(cell, -1)\n\t\t\t\t);\n\t\t\t}\n\n\t\t\tif (this->cells_to_send.at(process).size() > 0) {\n\t\t\t\tstd::sort(\n\t\t\t\t\tthis->cells_to_send.at(process).begin(),\n\t\t\t\t\tthis->cells_to_send.at(process).end()\n\t\t\t\t);\n\t\t\t}\n\n\t\t\t// sequential tags for messages: 1, 2, ...\n\t\t\tfor (size_t i = 0; i < this->cells_to_send.at(process).size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tconst uint64_t cell = this->cells_to_send.at(process)[i].first;\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << cell\n\t\t\t\t\t\t<< " to process " << process\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tthis->cells_to_send.at(process)[i].second = tag;\n\t\t\t}\n\t\t}\n\n', '\t\t// populate final send list data structures and sort them\n\t\tfor (const auto& receiver: unique_cells_to_send) {\n\t\t\tconst int process = receiver.first;\n\n\t\t\t#ifdef DEBUG\n\t\t\tif ((uint64_t) process == this->rank) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << process << " would send to self"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tauto& sends = this->cells_to_send[process];\n\t\t\tsends.reserve(receiver.second.size());\n\n\t\t\tfor (const uint64_t cell: receiver.second) {\n\t\t\t\tsends.emplace_back(cell, -1);\n\t\t\t}\n\n\t\t\tstd::sort(sends.begin(), sends.end());\n\n\t\t\t// sequential tags for messages: 1, 2, ...\n\t\t\tfor (size_t i = 0; i < sends.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tconst uint64_t cell = sends[i].first;\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << cell\n\t\t\t\t\t\t<< " to process " << process\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tsends[i].second = tag;\n\t\t\t}\n\t\t}\n\n'))
same('n-bound-find', ('\tvoid update_remote_neighbor_info(const uint64_t cell)\n\t{\n\t\tusing std::to_string;\n\n\t\tif (this->cell_process.count(cell) == 0) {\n\t\t\treturn;\n\t\t}\n\n\t\tif (this->cell_process.at(cell) != this->rank) {\n\t\t\treturn;\n\t\t}\n\n', '\tvoid update_remote_neighbor_info(const uint64_t cell)\n\t{\n\t\tusing std::to_string;\n\n\t\tconst auto owner = this->cell_process.find(cell);\n\t\tif (owner == this->cell_process.end() or owner->second != this->rank) {\n\t\t\treturn;\n\t\t}\n\n'))
same('n-bound-flag', ('\t\t// neighbors of given cell\n\t\tfor (const auto& neighbor_i: this->neighbors_of.at(cell)) {\n\t\t\tconst auto& neighbor = neighbor_i.first;\n\n\t\t\tif (neighbor == error_cell) {\n\t\t\t\tcontinue;\n\t\t\t}\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(neighbor) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor " << neighbor\n\t\t\t\t\t<< " of cell " << cell\n\t\t\t\t\t<< " doesn\'t exist in cell_process"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tif (this->cell_process.at(neighbor) != this->rank) {\n\t\t\t\tthis->local_cells_on_process_boundary.insert(cell);\n\t\t\t\tthis->remote_cells_on_process_boundary.insert(neighbor);\n\t\t\t}\n\t\t}\n\n\t\t// cells with given cell as neighbor\n\t\tfor (const auto& neighbor_to_i: this->neighbors_to.at(cell)) {\n\t\t\tconst auto& neighbor_to = neighbor_to_i.first;\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(neighbor_to) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor_to " << neighbor_to\n\t\t\t\t\t<< " doesn\'t exist in cell_process"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tif (this->cell_process.at(neighbor_to) != this->rank) {\n\t\t\t\tthis->local_cells_on_process_boundary.insert(cell);\n\t\t\t\tthis->remote_cells_on_process_boundary.insert(neighbor_to);\n\t\t\t}\n\t\t}\n\n', '\t\tbool on_boundary = false;\n\t\tfor (const auto& neighbor_i: this->neighbors_of.at(cell)) {\n\t\t\tconst uint64_t neighbor = neighbor_i.first;\n\t\t\tif (neighbor != error_cell and this->cell_process.at(neighbor) != this->rank) {\n\t\t\t\ton_boundary = true;\n\t\t\t\tthis->remote_cells_on_process_boundary.insert(neighbor);\n\t\t\t}\n\t\t}\n\t\tfor (const auto& neighbor_to_i: this->neighbors_to.at(cell)) {\n\t\t\tif (this->cell_process.at(neighbor_to_i.first) == this->rank) {\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\ton_boundary = true;\n\t\t\tthis->remote_cells_on_process_boundary.insert(neighbor_to_i.first);\n\t\t}\n\t\tif (on_boundary) {\n\t\t\tthis->local_cells_on_process_boundary.insert(cell);\n\t\t}\n\n'))
same('n-recv-ref', ('\tbool start_user_data_receives(\n\t\tstd::unordered_map<uint64_t, Cell_Data>& destination,\n\t\tconst std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>& receive_item,\n\t\tconst int neighborhood_id\n\t) {\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::const_iterator\n\t\t\tsender = receive_item.begin();\n\t\t\tsender != receive_item.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tconst int sending_process = sender->first;\n\t\t\tconst size_t number_of_receives = sender->second.size();\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (sending_process == (int) this->rank\n\t\t\t&& number_of_receives > 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t<< " trying to transfer to self"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tint ret_val = -1;\n\n\t\t\tif (this->send_single_cells) {\n\n\t\t\t\tfor (std::vector<std::pair<uint64_t, int>>::const_iterator\n\t\t\t\t\titem = sender->second.begin();\n\t\t\t\t\titem != sender->second.end();\n\t\t\t\t\titem++\n\t\t\t\t) {\n\t\t\t\t\tconst uint64_t cell = item->first;\n\n\t\t\t\t\tif (destination.count(cell) == 0) {\n\t\t\t\t\t\tdestination[cell];\n\t\t\t\t\t}\n\n\t\t\t\t\tthis->receive_requests[sending_process].push_back(MPI_Request());\n\n\t\t\t\t\tvoid* address = NULL;\n\t\t\t\t\tint count = -1;\n\t\t\t\t\tMPI_Datatype user_datatype = MPI_DATATYPE_NULL;\n\n\t\t\t\t\tstd::tie(\n\t\t\t\t\t\taddress,\n\t\t\t\t\t\tcount,\n\t\t\t\t\t\tuser_datatype\n\t\t\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\t\t\tdestination.at(cell),\n\t\t\t\t\t\tcell,\n\t\t\t\t\t\tsending_process,\n\t\t\t\t\t\t(int) this->rank,\n\t\t\t\t\t\ttrue,\n\t\t\t\t\t\tneighborhood_id\n\t\t\t\t\t);\n\n\t\t\t\t\tconst bool is_named_datatype = Is_Named_Datatype()(user_datatype);\n\n\t\t\t\t\tif (!is_named_datatype) {\n\t\t\t\t\t\tret_val = MPI_Type_commit(&user_datatype);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_commit failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for datatype of cell " << cell\n\t\t\t\t\t\t\t\t<< " with returned buffer address " << address\n\t\t\t\t\t\t\t\t<< " and returned count " << count\n\t\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\n\t\t\t\t\tret_val = MPI_Irecv(\n\t\t\t\t\t\taddress,\n\t\t\t\t\t\tcount,\n\t\t\t\t\t\tuser_datatype,\n\t\t\t\t\t\tsending_process,\n\t\t\t\t\t\titem->second,\n\t\t\t\t\t\tthis->comm,\n\t\t\t\t\t\t&(this->receive_requests[sending_process].back())\n\t\t\t\t\t);\n\n\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t<< " MPI_Irecv failed on process " << this->rank\n\t\t\t\t\t\t\t<< ", for cell " << cell\n\t\t\t\t\t\t\t<< ", from process " << sending_process\n\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\tabort();\n\t\t\t\t\t}\n\n\t\t\t\t\tif (!is_named_datatype) {\n\t\t\t\t\t\tret_val = MPI_Type_free(&user_datatype);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_free failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for a derived datatype of cell " << cell\n\t\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\n\t\t\t} else { // if this->send_single_cells\n\n\t\t\t\t// reserve space for incoming user data in this end\n\t\t\t\t// TODO: move into a separate function callable by user\n\t\t\t\tfor (size_t i = 0; i < number_of_receives; i++) {\n\t\t\t\t\tconst uint64_t cell = sender->second[i].first;\n\t\t\t\t\tif (destination.count(cell) == 0) {\n\t\t\t\t\t\tdestination[cell];\n\t\t\t\t\t}\n\t\t\t\t}\n\n\t\t\t\t// get mpi transfer info from cells\n\t\t\t\tstd::vector<void*> addresses(number_of_receives, NULL);\n\t\t\t\tstd::vector<int> counts(number_of_receives, -1);\n\t\t\t\tstd::vector<MPI_Datatype> datatypes(number_of_receives, MPI_DATATYPE_NULL);\n\n\t\t\t\tfor (size_t i = 0; i < number_of_receives; i++) {\n\t\t\t\t\tconst uint64_t cell = sender->second[i].first;\n\n\t\t\t\t\tstd::tie(\n\t\t\t\t\t\taddresses[i],\n\t\t\t\t\t\tcounts[i],\n\t\t\t\t\t\tdatatypes[i]\n\t\t\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\t\t\tdestination.at(cell),\n\t\t\t\t\t\tcell,\n\t\t\t\t\t\tsending_process,\n\t\t\t\t\t\t(int) this->rank,\n\t\t\t\t\t\ttrue,\n\t\t\t\t\t\tneighborhood_id\n\t\t\t\t\t);\n\t\t\t\t}\n\n\t\t\t\t// get displacements in bytes for incoming user data\n\t\t\t\tstd::vector<MPI_Aint> displacements(number_of_receives, 0);\n\t\t\t\tfor (size_t i = 0; i < number_of_receives; i++) {\n\t\t\t\t\tdisplacements[i] = (uint8_t*) addresses[i] - (uint8_t*) addresses[0];\n\t\t\t\t}\n\n\t\t\t\tMPI_Datatype receive_datatype;\n\t\t\t\tret_val = MPI_Type_create_struct(\n\t\t\t\t\t(int) number_of_receives,\n\t\t\t\t\t&counts[0],\n\t\t\t\t\t&displacements[0],\n\t\t\t\t\t&datatypes[0],\n\t\t\t\t\t&receive_datatype\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Type_create_struct failed for process " << this->rank\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val = MPI_Type_commit(&receive_datatype);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Type_commit failed for process " << this->rank\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tthis->receive_requests[sender->first].push_back(MPI_Request());\n\n\t\t\t\tret_val = MPI_Irecv(\n\t\t\t\t\taddresses[0],\n\t\t\t\t\t1,\n\t\t\t\t\treceive_datatype,\n\t\t\t\t\tsender->first,\n\t\t\t\t\t0,\n\t\t\t\t\tthis->comm,\n\t\t\t\t\t&(this->receive_requests[sender->first].back())\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Irecv failed for process " << this->rank\n\t\t\t\t\t\t<< ", source process " << sender->first\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val = MPI_Type_free(&receive_datatype);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t free datatype: " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tfor (auto& type: datatypes) {\n\t\t\t\t\tif (!Is_Named_Datatype()(type)) {\n\t\t\t\t\t\tret_val = MPI_Type_free(&type);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_free failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for a derived datatype of user data: "\n\t\t\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\treturn true;\n\t}\n\n\n\t/*!\n\tPosts MPI_Isends for start_user_data_transfers().\n\t*/\n', '\tbool start_user_data_receives(\n\t\tstd::unordered_map<uint64_t, Cell_Data>& destination,\n\t\tconst std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>& receive_item,\n\t\tconst int neighborhood_id\n\t) {\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::const_iterator\n\t\t\tsender = receive_item.begin();\n\t\t\tsender != receive_item.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tconst int sending_process = sender->first;\n\t\t\tconst size_t number_of_receives = sender->second.size();\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (sending_process == (int) this->rank\n\t\t\t&& number_of_receives > 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t<< " trying to transfer to self"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tint ret_val = -1;\n\n\t\t\tif (this->send_single_cells) {\n\n\t\t\t\tfor (std::vector<std::pair<uint64_t, int>>::const_iterator\n\t\t\t\t\titem = sender->second.begin();\n\t\t\t\t\titem != sender->second.end();\n\t\t\t\t\titem++\n\t\t\t\t) {\n\t\t\t\t\tconst uint64_t cell = item->first;\n\n\t\t\t\t\tCell_Data& data = destination[cell];\n\t\t\t\t\tauto& requests = this->receive_requests[sending_process];\n\t\t\t\t\trequests.emplace_back();\n\n\t\t\t\t\tvoid* address = NULL;\n\t\t\t\t\tint count = -1;\n\t\t\t\t\tMPI_Datatype user_datatype = MPI_DATATYPE_NULL;\n\n\t\t\t\t\tstd::tie(\n\t\t\t\t\t\taddress,\n\t\t\t\t\t\tcount,\n\t\t\t\t\t\tuser_datatype\n\t\t\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\t\t\tdata,\n\t\t\t\t\t\tcell,\n\t\t\t\t\t\tsending_process,\n\t\t\t\t\t\t(int) this->rank,\n\t\t\t\t\t\ttrue,\n\t\t\t\t\t\tneighborhood_id\n\t\t\t\t\t);\n\n\t\t\t\t\tconst bool is_named_datatype = Is_Named_Datatype()(user_datatype);\n\n\t\t\t\t\tif (!is_named_datatype) {\n\t\t\t\t\t\tret_val = MPI_Type_commit(&user_datatype);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_commit failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for datatype of cell " << cell\n\t\t\t\t\t\t\t\t<< " with returned buffer address " << address\n\t\t\t\t\t\t\t\t<< " and returned count " << count\n\t\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\n\t\t\t\t\tret_val = MPI_Irecv(\n\t\t\t\t\t\taddress,\n\t\t\t\t\t\tcount,\n\t\t\t\t\t\tuser_datatype,\n\t\t\t\t\t\tsending_process,\n\t\t\t\t\t\titem->second,\n\t\t\t\t\t\tthis->comm,\n\t\t\t\t\t\t&requests.back()\n\t\t\t\t\t);\n\n\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t<< " MPI_Irecv failed on process " << this->rank\n\t\t\t\t\t\t\t<< ", for cell " << cell\n\t\t\t\t\t\t\t<< ", from process " << sending_process\n\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\tabort();\n\t\t\t\t\t}\n\n\t\t\t\t\tif (!is_named_datatype) {\n\t\t\t\t\t\tret_val = MPI_Type_free(&user_datatype);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_free failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for a derived datatype of cell " << cell\n\t\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\n\t\t\t} else { // if this->send_single_cells\n\n\t\t\t\t// reserve space for incoming user data in this end\n\t\t\t\t// TODO: move into a separate function callable by user\n\t\t\t\tfor (size_t i = 0; i < number_of_receives; i++) {\n\t\t\t\t\tconst uint64_t cell = sender->second[i].first;\n\t\t\t\t\tif (destination.count(cell) == 0) {\n\t\t\t\t\t\tdestination[cell];\n\t\t\t\t\t}\n\t\t\t\t}\n\n\t\t\t\t// get mpi transfer info from cells\n\t\t\t\tstd::vector<void*> addresses(number_of_receives, NULL);\n\t\t\t\tstd::vector<int> counts(number_of_receives, -1);\n\t\t\t\tstd::vector<MPI_Datatype> datatypes(number_of_receives, MPI_DATATYPE_NULL);\n\n\t\t\t\tfor (size_t i = 0; i < number_of_receives; i++) {\n\t\t\t\t\tconst uint64_t cell = sender->second[i].first;\n\n\t\t\t\t\tstd::tie(\n\t\t\t\t\t\taddresses[i],\n\t\t\t\t\t\tcounts[i],\n\t\t\t\t\t\tdatatypes[i]\n\t\t\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\t\t\tdestination.at(cell),\n\t\t\t\t\t\tcell,\n\t\t\t\t\t\tsending_process,\n\t\t\t\t\t\t(int) this->rank,\n\t\t\t\t\t\ttrue,\n\t\t\t\t\t\tneighborhood_id\n\t\t\t\t\t);\n\t\t\t\t}\n\n\t\t\t\t// get displacements in bytes for incoming user data\n\t\t\t\tstd::vector<MPI_Aint> displacements(number_of_receives, 0);\n\t\t\t\tfor (size_t i = 0; i < number_of_receives; i++) {\n\t\t\t\t\tdisplacements[i] = (uint8_t*) addresses[i] - (uint8_t*) addresses[0];\n\t\t\t\t}\n\n\t\t\t\tMPI_Datatype receive_datatype;\n\t\t\t\tret_val = MPI_Type_create_struct(\n\t\t\t\t\t(int) number_of_receives,\n\t\t\t\t\t&counts[0],\n\t\t\t\t\t&displacements[0],\n\t\t\t\t\t&datatypes[0],\n\t\t\t\t\t&receive_datatype\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Type_create_struct failed for process " << this->rank\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val = MPI_Type_commit(&receive_datatype);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Type_commit failed for process " << this->rank\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tthis->receive_requests[sender->first].push_back(MPI_Request());\n\n\t\t\t\tret_val = MPI_Irecv(\n\t\t\t\t\taddresses[0],\n\t\t\t\t\t1,\n\t\t\t\t\treceive_datatype,\n\t\t\t\t\tsender->first,\n\t\t\t\t\t0,\n\t\t\t\t\tthis->comm,\n\t\t\t\t\t&(this->receive_requests[sender->first].back())\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Irecv failed for process " << this->rank\n\t\t\t\t\t\t<< ", source process " << sender->first\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val = MPI_Type_free(&receive_datatype);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t free datatype: " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tfor (auto& type: datatypes) {\n\t\t\t\t\tif (!Is_Named_Datatype()(type)) {\n\t\t\t\t\t\tret_val = MPI_Type_free(&type);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_free failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for a derived datatype of user data: "\n\t\t\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\treturn true;\n\t}\n\n\n\t/*!\n\tPosts MPI_Isends for start_user_data_transfers().\n\t*/\n'))
same('n-recv-disp', ('\tbool start_user_data_receives(\n\t\tstd::unordered_map<uint64_t, Cell_Data>& destination,\n\t\tconst std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>& receive_item,\n\t\tconst int neighborhood_id\n\t) {\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::const_iterator\n\t\t\tsender = receive_item.begin();\n\t\t\tsender != receive_item.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tconst int sending_process = sender->first;\n\t\t\tconst size_t number_of_receives = sender->second.size();\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (sending_process == (int) this->rank\n\t\t\t&& number_of_receives > 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t<< " trying to transfer to self"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tint ret_val = -1;\n\n\t\t\tif (this->send_single_cells) {\n\n\t\t\t\tfor (std::vector<std::pair<uint64_t, int>>::const_iterator\n\t\t\t\t\titem = sender->second.begin();\n\t\t\t\t\titem != sender->second.end();\n\t\t\t\t\titem++\n\t\t\t\t) {\n\t\t\t\t\tconst uint64_t cell = item->first;\n\n\t\t\t\t\tif (destination.count(cell) == 0) {\n\t\t\t\t\t\tdestination[cell];\n\t\t\t\t\t}\n\n\t\t\t\t\tthis->receive_requests[sending_process].push_back(MPI_Request());\n\n\t\t\t\t\tvoid* address = NULL;\n\t\t\t\t\tint count = -1;\n\t\t\t\t\tMPI_Datatype user_datatype = MPI_DATATYPE_NULL;\n\n\t\t\t\t\tstd::tie(\n\t\t\t\t\t\taddress,\n\t\t\t\t\t\tcount,\n\t\t\t\t\t\tuser_datatype\n\t\t\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\t\t\tdestination.at(cell),\n\t\t\t\t\t\tcell,\n\t\t\t\t\t\tsending_process,\n\t\t\t\t\t\t(int) this->rank,\n\t\t\t\t\t\ttrue,\n\t\t\t\t\t\tneighborhood_id\n\t\t\t\t\t);\n\n\t\t\t\t\tconst bool is_named_datatype = Is_Named_Datatype()(user_datatype);\n\n\t\t\t\t\tif (!is_named_datatype) {\n\t\t\t\t\t\tret_val = MPI_Type_commit(&user_datatype);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_commit failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for datatype of cell " << cell\n\t\t\t\t\t\t\t\t<< " with returned buffer address " << address\n\t\t\t\t\t\t\t\t<< " and returned count " << count\n\t\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\n\t\t\t\t\tret_val = MPI_Irecv(\n\t\t\t\t\t\taddress,\n\t\t\t\t\t\tcount,\n\t\t\t\t\t\tuser_datatype,\n\t\t\t\t\t\tsending_process,\n\t\t\t\t\t\titem->second,\n\t\t\t\t\t\tthis->comm,\n\t\t\t\t\t\t&(this->receive_requests[sending_process].back())\n\t\t\t\t\t);\n\n\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t<< " MPI_Irecv failed on process " << this->rank\n\t\t\t\t\t\t\t<< ", for cell " << cell\n\t\t\t\t\t\t\t<< ", from process " << sending_process\n\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\tabort();\n\t\t\t\t\t}\n\n\t\t\t\t\tif (!is_named_datatype) {\n\t\t\t\t\t\tret_val = MPI_Type_free(&user_datatype);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_free failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for a derived datatype of cell " << cell\n\t\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\n\t\t\t} else { // if this->send_single_cells\n\n\t\t\t\t// reserve space for incoming user data in this end\n\t\t\t\t// TODO: move into a separate function callable by user\n\t\t\t\tfor (size_t i = 0; i < number_of_receives; i++) {\n\t\t\t\t\tconst uint64_t cell = sender->second[i].first;\n\t\t\t\t\tif (destination.count(cell) == 0) {\n\t\t\t\t\t\tdestination[cell];\n\t\t\t\t\t}\n\t\t\t\t}\n\n\t\t\t\t// get mpi transfer info from cells\n\t\t\t\tstd::vector<void*> addresses(number_of_receives, NULL);\n\t\t\t\tstd::vector<int> counts(number_of_receives, -1);\n\t\t\t\tstd::vector<MPI_Datatype> datatypes(number_of_receives, MPI_DATATYPE_NULL);\n\n\t\t\t\tfor (size_t i = 0; i < number_of_receives; i++) {\n\t\t\t\t\tconst uint64_t cell = sender->second[i].first;\n\n\t\t\t\t\tstd::tie(\n\t\t\t\t\t\taddresses[i],\n\t\t\t\t\t\tcounts[i],\n\t\t\t\t\t\tdatatypes[i]\n\t\t\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\t\t\tdestination.at(cell),\n\t\t\t\t\t\tcell,\n\t\t\t\t\t\tsending_process,\n\t\t\t\t\t\t(int) this->rank,\n\t\t\t\t\t\ttrue,\n\t\t\t\t\t\tneighborhood_id\n\t\t\t\t\t);\n\t\t\t\t}\n\n\t\t\t\t// get displacements in bytes for incoming user data\n\t\t\t\tstd::vector<MPI_Aint> displacements(number_of_receives, 0);\n\t\t\t\tfor (size_t i = 0; i < number_of_receives; i++) {\n\t\t\t\t\tdisplacements[i] = (uint8_t*) addresses[i] - (uint8_t*) addresses[0];\n\t\t\t\t}\n\n\t\t\t\tMPI_Datatype receive_datatype;\n\t\t\t\tret_val = MPI_Type_create_struct(\n\t\t\t\t\t(int) number_of_receives,\n\t\t\t\t\t&counts[0],\n\t\t\t\t\t&displacements[0],\n\t\t\t\t\t&datatypes[0],\n\t\t\t\t\t&receive_datatype\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Type_create_struct failed for process " << this->rank\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val = MPI_Type_commit(&receive_datatype);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Type_commit failed for process " << this->rank\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tthis->receive_requests[sender->first].push_back(MPI_Request());\n\n\t\t\t\tret_val = MPI_Irecv(\n\t\t\t\t\taddresses[0],\n\t\t\t\t\t1,\n\t\t\t\t\treceive_datatype,\n\t\t\t\t\tsender->first,\n\t\t\t\t\t0,\n\t\t\t\t\tthis->comm,\n\t\t\t\t\t&(this->receive_requests[sender->first].back())\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Irecv failed for process " << this->rank\n\t\t\t\t\t\t<< ", source process " << sender->first\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val = MPI_Type_free(&receive_datatype);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t free datatype: " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tfor (auto& type: datatypes) {\n\t\t\t\t\tif (!Is_Named_Datatype()(type)) {\n\t\t\t\t\t\tret_val = MPI_Type_free(&type);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_free failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for a derived datatype of user data: "\n\t\t\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\treturn true;\n\t}\n\n\n\t/*!\n\tPosts MPI_Isends for start_user_data_transfers().\n\t*/\n', '\tbool start_user_data_receives(\n\t\tstd::unordered_map<uint64_t, Cell_Data>& destination,\n\t\tconst std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>& receive_item,\n\t\tconst int neighborhood_id\n\t) {\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::const_iterator\n\t\t\tsender = receive_item.begin();\n\t\t\tsender != receive_item.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tconst int sending_process = sender->first;\n\t\t\tconst size_t number_of_receives = sender->second.size();\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (sending_process == (int) this->rank\n\t\t\t&& number_of_receives > 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t<< " trying to transfer to self"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tint ret_val = -1;\n\n\t\t\tif (this->send_single_cells) {\n\n\t\t\t\tfor (std::vector<std::pair<uint64_t, int>>::const_iterator\n\t\t\t\t\titem = sender->second.begin();\n\t\t\t\t\titem != sender->second.end();\n\t\t\t\t\titem++\n\t\t\t\t) {\n\t\t\t\t\tconst uint64_t cell = item->first;\n\n\t\t\t\t\tif (destination.count(cell) == 0) {\n\t\t\t\t\t\tdestination[cell];\n\t\t\t\t\t}\n\n\t\t\t\t\tthis->receive_requests[sending_process].push_back(MPI_Request());\n\n\t\t\t\t\tvoid* address = NULL;\n\t\t\t\t\tint count = -1;\n\t\t\t\t\tMPI_Datatype user_datatype = MPI_DATATYPE_NULL;\n\n\t\t\t\t\tstd::tie(\n\t\t\t\t\t\taddress,\n\t\t\t\t\t\tcount,\n\t\t\t\t\t\tuser_datatype\n\t\t\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\t\t\tdestination.at(cell),\n\t\t\t\t\t\tcell,\n\t\t\t\t\t\tsending_process,\n\t\t\t\t\t\t(int) this->rank,\n\t\t\t\t\t\ttrue,\n\t\t\t\t\t\tneighborhood_id\n\t\t\t\t\t);\n\n\t\t\t\t\tconst bool is_named_datatype = Is_Named_Datatype()(user_datatype);\n\n\t\t\t\t\tif (!is_named_datatype) {\n\t\t\t\t\t\tret_val = MPI_Type_commit(&user_datatype);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_commit failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for datatype of cell " << cell\n\t\t\t\t\t\t\t\t<< " with returned buffer address " << address\n\t\t\t\t\t\t\t\t<< " and returned count " << count\n\t\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\n\t\t\t\t\tret_val = MPI_Irecv(\n\t\t\t\t\t\taddress,\n\t\t\t\t\t\tcount,\n\t\t\t\t\t\tuser_datatype,\n\t\t\t\t\t\tsending_process,\n\t\t\t\t\t\titem->second,\n\t\t\t\t\t\tthis->comm,\n\t\t\t\t\t\t&(this->receive_requests[sending_process].back())\n\t\t\t\t\t);\n\n\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t<< " MPI_Irecv failed on process " << this->rank\n\t\t\t\t\t\t\t<< ", for cell " << cell\n\t\t\t\t\t\t\t<< ", from process " << sending_process\n\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\tabort();\n\t\t\t\t\t}\n\n\t\t\t\t\tif (!is_named_datatype) {\n\t\t\t\t\t\tret_val = MPI_Type_free(&user_datatype);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_free failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for a derived datatype of cell " << cell\n\t\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\n\t\t\t} else { // if this->send_single_cells\n\n\t\t\t\t// reserve space for incoming user data in this end\n\t\t\t\t// TODO: move into a separate function callable by user\n\t\t\t\tfor (size_t i = 0; i < number_of_receives; i++) {\n\t\t\t\t\tconst uint64_t cell = sender->second[i].first;\n\t\t\t\t\tif (destination.count(cell) == 0) {\n\t\t\t\t\t\tdestination[cell];\n\t\t\t\t\t}\n\t\t\t\t}\n\n\t\t\t\t// get mpi transfer info from cells\n\t\t\t\tstd::vector<void*> addresses(number_of_receives, NULL);\n\t\t\t\tstd::vector<int> counts(number_of_receives, -1);\n\t\t\t\tstd::vector<MPI_Aint> displacements(number_of_receives, 0);\n\t\t\t\tstd::vector<MPI_Datatype> datatypes(number_of_receives, MPI_DATATYPE_NULL);\n\n\t\t\t\tfor (size_t i = 0; i < number_of_receives; i++) {\n\t\t\t\t\tconst uint64_t cell = sender->second[i].first;\n\n\t\t\t\t\tstd::tie(\n\t\t\t\t\t\taddresses[i],\n\t\t\t\t\t\tcounts[i],\n\t\t\t\t\t\tdatatypes[i]\n\t\t\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\t\t\tdestination.at(cell),\n\t\t\t\t\t\tcell,\n\t\t\t\t\t\tsending_process,\n\t\t\t\t\t\t(int) this->rank,\n\t\t\t\t\t\ttrue,\n\t\t\t\t\t\tneighborhood_id\n\t\t\t\t\t);\n\t\t\t\t\tdisplacements[i] = (uint8_t*) addresses[i] - (uint8_t*) addresses[0];\n\t\t\t\t}\n\n\n\t\t\t\tMPI_Datatype receive_datatype;\n\t\t\t\tret_val = MPI_Type_create_struct(\n\t\t\t\t\t(int) number_of_receives,\n\t\t\t\t\t&counts[0],\n\t\t\t\t\t&displacements[0],\n\t\t\t\t\t&datatypes[0],\n\t\t\t\t\t&receive_datatype\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Type_create_struct failed for process " << this->rank\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val = MPI_Type_commit(&receive_datatype);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Type_commit failed for process " << this->rank\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tthis->receive_requests[sender->first].push_back(MPI_Request());\n\n\t\t\t\tret_val = MPI_Irecv(\n\t\t\t\t\taddresses[0],\n\t\t\t\t\t1,\n\t\t\t\t\treceive_datatype,\n\t\t\t\t\tsender->first,\n\t\t\t\t\t0,\n\t\t\t\t\tthis->comm,\n\t\t\t\t\t&(this->receive_requests[sender->first].back())\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Irecv failed for process " << this->rank\n\t\t\t\t\t\t<< ", source process " << sender->first\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val = MPI_Type_free(&receive_datatype);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t free datatype: " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tfor (auto& type: datatypes) {\n\t\t\t\t\tif (!Is_Named_Datatype()(type)) {\n\t\t\t\t\t\tret_val = MPI_Type_free(&type);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_free failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for a derived datatype of user data: "\n\t\t\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\treturn true;\n\t}\n\n\n\t/*!\n\tPosts MPI_Isends for start_user_data_transfers().\n\t*/\n'))
same('n-pins', ('\tvoid update_pin_requests()\n\t{\n\t\tstd::vector<uint64_t> new_pinned_cells, new_pinned_processes;\n\n\t\tnew_pinned_cells.reserve(this->new_pin_requests.size());\n\t\tnew_pinned_processes.reserve(this->new_pin_requests.size());\n\t\tfor (std::unordered_map<uint64_t, uint64_t>::const_iterator\n\t\t\titem = this->new_pin_requests.begin();\n\t\t\titem != this->new_pin_requests.end();\n\t\t\titem++\n\t\t) {\n\t\t\tnew_pinned_cells.push_back(item->first);\n\t\t\tnew_pinned_processes.push_back(item->second);\n\t\t}\n\n\t\tstd::vector<std::vector<uint64_t>> all_new_pinned_cells, all_new_pinned_processes;\n\t\tAll_Gather()(new_pinned_cells, all_new_pinned_cells, this->comm);\n\t\tAll_Gather()(new_pinned_processes, all_new_pinned_processes, this->comm);\n\n\t\tfor (uint64_t process = 0; process < all_new_pinned_cells.size(); process++) {\n\t\t\tfor (uint64_t i = 0; i < all_new_pinned_cells.at(process).size(); i++) {\n\n\t\t\t\tconst uint64_t requested_process = all_new_pinned_processes[process][i];\n\n\t\t\t\tif (requested_process >= this->comm_size) {\n\t\t\t\t\tthis->pin_requests.erase(all_new_pinned_cells[process][i]);\n\t\t\t\t} else {\n\t\t\t\t\tthis->pin_requests[all_new_pinned_cells[process][i]] = requested_process;\n\t\t\t\t}\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->cell_process.at(all_new_pinned_cells[process][i]) != process) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << process\n\t\t\t\t\t\t<< " tried pin cell " << all_new_pinned_cells[process][i]\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\texit(EXIT_FAILURE);\n\t\t\t\t}\n\t\t\t\t#endif\n\t\t\t}\n\t\t}\n\n\t\tthis->new_pin_requests.clear();\n\t}\n\n\n', '\tvoid update_pin_requests()\n\t{\n\t\tstd::vector<uint64_t> new_pinned_cells, new_pinned_processes;\n\n\t\tnew_pinned_cells.reserve(this->new_pin_requests.size());\n\t\tnew_pinned_processes.reserve(this->new_pin_requests.size());\n\t\tfor (const auto& request: this->new_pin_requests) {\n\t\t\tnew_pinned_cells.emplace_back(request.first);\n\t\t\tnew_pinned_processes.emplace_back(request.second);\n\t\t}\n\t\tthis->new_pin_requests.clear();\n\n\t\tstd::vector<std::vector<uint64_t>> all_new_pinned_cells, all_new_pinned_processes;\n\t\tAll_Gather()(new_pinned_cells, all_new_pinned_cells, this->comm);\n\t\tAll_Gather()(new_pinned_processes, all_new_pinned_processes, this->comm);\n\n\t\tfor (uint64_t process = 0; process < all_new_pinned_cells.size(); process++) {\n\t\t\tfor (uint64_t i = 0; i < all_new_pinned_cells.at(process).size(); i++) {\n\n\t\t\t\tconst uint64_t requested_process = all_new_pinned_processes[process][i];\n\n\t\t\t\tconst uint64_t cell = all_new_pinned_cells.at(process).at(i);\n\t\t\t\tif (requested_process < this->comm_size) {\n\t\t\t\t\tthis->pin_requests[cell] = requested_process;\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tthis->pin_requests.erase(cell);\n\n\t\t\t}\n\t\t}\n\t}\n\n\n'))
same('p-tag-helper', ('\tvoid make_new_partition(const bool use_zoltan)\n\t{\n\t\tthis->update_pin_requests();\n\n\t\tint\n\t\t\tpartition_changed,\n\t\t\tglobal_id_size,\n\t\t\tlocal_id_size,\n\t\t\tnumber_to_receive,\n\t\t\tnumber_to_send,\n\t\t\t*sender_processes,\n\t\t\t*receiver_processes;\n\n\t\tZOLTAN_ID_PTR\n\t\t\tglobal_ids_to_receive,\n\t\t\tlocal_ids_to_receive,\n\t\t\tglobal_ids_to_send,\n\t\t\tlocal_ids_to_send;\n\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan && Zoltan_LB_Balance(\n\t\t\tthis->zoltan,\n\t\t\t&partition_changed,\n\t\t\t&global_id_size,\n\t\t\t&local_id_size,\n\t\t\t&number_to_receive,\n\t\t\t&global_ids_to_receive,\n\t\t\t&local_ids_to_receive,\n\t\t\t&sender_processes,\n\t\t\t&number_to_send,\n\t\t\t&global_ids_to_send,\n\t\t\t&local_ids_to_send,\n\t\t\t&receiver_processes\n\t\t\t) != ZOLTAN_OK\n\t\t) {\n\t\t\tif (!this->no_load_balancing) {\n\t\t\t\tif (this->rank == 0) {\n\t\t\t\t\tstd::cerr << "Zoltan_LB_Partition failed" << std::endl;\n\t\t\t\t}\n\t\t\t\tZoltan_Destroy(&this->zoltan);\n\t\t\t\t// TODO: throw an exception instead\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\t#ifdef DEBUG\n\t\t\t// check that processes have the cells they\'re supposed to send\n\t\t\tfor (int i = 0; i < number_to_send; i++) {\n\t\t\t\tif (this->cell_data.count(global_ids_to_send[i]) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cannot send cell " << global_ids_to_send[i]\n\t\t\t\t\t\t<< " to process " << receiver_processes[i]\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// check that cells to be received are on the sending process\n\t\t\tfor (int i = 0; i < number_to_receive; i++) {\n\t\t\t\tif (this->cell_process.at(global_ids_to_receive[i]) != (uint64_t)sender_processes[i]) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cannot receive cell " << global_ids_to_receive[i]\n\t\t\t\t\t\t<< " from process " << sender_processes[i]\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\t\t\t#endif\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\tthis->added_cells.clear();\n\t\tthis->removed_cells.clear();\n\t\tthis->cells_to_receive.clear();\n\t\tthis->cells_to_send.clear();\n\n\t\t/*\n\t\tProcesses and the cells for which data has to be received by this process\n\t\t*/\n\n\t\t// migration from user\n\t\tfor (std::unordered_map<uint64_t, uint64_t>::const_iterator\n\t\t\tpin_request = this->pin_requests.begin();\n\t\t\tpin_request != this->pin_requests.end();\n\t\t\tpin_request++\n\t\t) {\n\t\t\tconst uint64_t current_process_of_cell = this->cell_process.at(pin_request->first);\n\n\t\t\tif (pin_request->second == this->rank\n\t\t\t&& current_process_of_cell != this->rank) {\n\t\t\t\tthis->cells_to_receive[int(current_process_of_cell)].push_back(\n\t\t\t\t\tstd::make_pair(pin_request->first, -1)\n\t\t\t\t);\n\t\t\t\tthis->added_cells.insert(pin_request->first);\n\t\t\t}\n\t\t}\n\n\t\t// migration from Zoltan\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan) {\n\t\t\tfor (int i = 0; i < number_to_receive; i++) {\n\n\t\t\t\t// don\'t send / receive from self\n\t\t\t\tif ((uint64_t)sender_processes[i] == this->rank) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\t// skip user-migrated cells\n\t\t\t\tif (this->pin_requests.count(global_ids_to_receive[i]) > 0) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tthis->cells_to_receive[sender_processes[i]].push_back(\n\t\t\t\t\tstd::make_pair(global_ids_to_receive[i], -1)\n\t\t\t\t);\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->added_cells.count(global_ids_to_receive[i]) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << global_ids_to_receive[i]\n\t\t\t\t\t\t<< " has already been received from process " << this->rank\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\tthis->added_cells.insert(global_ids_to_receive[i]);\n\t\t\t}\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\t// receive cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\tsender = this->cells_to_receive.begin();\n\t\t\tsender != this->cells_to_receive.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tstd::sort(sender->second.begin(), sender->second.end());\n\n\t\t\tfor (unsigned int i = 0; i < sender->second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << sender->second[i].first\n\t\t\t\t\t\t<< " from process " << sender->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tsender->second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\n\t\t/*\n\t\tProcesses and the cells for which data has to be sent by this process\n\t\t*/\n\n\t\t// migration from user\n\t\tfor (std::unordered_map<uint64_t, uint64_t>::const_iterator\n\t\t\tpin_request = this->pin_requests.begin();\n\t\t\tpin_request != this->pin_requests.end();\n\t\t\tpin_request++\n\t\t) {\n\t\t\tconst uint64_t current_process_of_cell = this->cell_process.at(pin_request->first);\n\t\t\tconst uint64_t destination_process = pin_request->second;\n\n\t\t\tif (destination_process != this->rank\n\t\t\t&& current_process_of_cell == this->rank) {\n\t\t\t\tthis->cells_to_send[int(destination_process)].push_back(\n\t\t\t\t\tstd::make_pair(pin_request->first, -1)\n\t\t\t\t);\n\t\t\t\tthis->removed_cells.insert(pin_request->first);\n\t\t\t}\n\t\t}\n\n\t\t// migration from Zoltan\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan) {\n\t\t\tfor (int i = 0; i < number_to_send; i++) {\n\n\t\t\t\t// don\'t send / receive from self\n\t\t\t\tif ((uint64_t) receiver_processes[i] == this->rank) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\t// skip user-migrated cells\n\t\t\t\tif (this->pin_requests.count(global_ids_to_send[i]) > 0) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tthis->cells_to_send[receiver_processes[i]].push_back(\n\t\t\t\t\tstd::make_pair(global_ids_to_send[i], -1)\n\t\t\t\t);\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->removed_cells.count(global_ids_to_send[i]) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << global_ids_to_send[i]\n\t\t\t\t\t\t<< " has already been sent from process " << this->rank\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\tthis->removed_cells.insert(global_ids_to_send[i]);\n\t\t\t}\n\n\t\t\tZoltan_LB_Free_Data(\n\t\t\t\t&global_ids_to_receive,\n\t\t\t\t&local_ids_to_receive,\n\t\t\t\t&sender_processes,\n\t\t\t\t&global_ids_to_send,\n\t\t\t\t&local_ids_to_send,\n\t\t\t\t&receiver_processes\n\t\t\t);\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\t// send cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\treceiver = this->cells_to_send.begin();\n\t\t\treceiver != this->cells_to_send.end();\n\t\t\treceiver++\n\t\t) {\n\t\t\tstd::sort(receiver->second.begin(), receiver->second.end());\n\t\t\tfor (unsigned int i = 0; i < receiver->second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << receiver->second[i].first\n\t\t\t\t\t\t<< " to process " << receiver->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\treceiver->second[i].second = tag;\n\t\t\t}\n\t\t}\n\t}\n\n\n', '\t//! sorts given transfer list and gives consecutive message tags to cells\n\tvoid sort_and_tag(std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>& transfers)\n\t{\n\t\tfor (auto& transfer: transfers) {\n\t\t\tauto& cells = transfer.second;\n\t\t\tstd::sort(cells.begin(), cells.end());\n\t\t\tfor (size_t i = 0; i < cells.size(); i++) {\n\t\t\t\tif (i + 1 > this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Message tag would overflow" << std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tcells[i].second = int(i + 1);\n\t\t\t}\n\t\t}\n\t}\n\n\tvoid make_new_partition(const bool use_zoltan)\n\t{\n\t\tthis->update_pin_requests();\n\n\t\tint\n\t\t\tpartition_changed,\n\t\t\tglobal_id_size,\n\t\t\tlocal_id_size,\n\t\t\tnumber_to_receive,\n\t\t\tnumber_to_send,\n\t\t\t*sender_processes,\n\t\t\t*receiver_processes;\n\n\t\tZOLTAN_ID_PTR\n\t\t\tglobal_ids_to_receive,\n\t\t\tlocal_ids_to_receive,\n\t\t\tglobal_ids_to_send,\n\t\t\tlocal_ids_to_send;\n\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan && Zoltan_LB_Balance(\n\t\t\tthis->zoltan,\n\t\t\t&partition_changed,\n\t\t\t&global_id_size,\n\t\t\t&local_id_size,\n\t\t\t&number_to_receive,\n\t\t\t&global_ids_to_receive,\n\t\t\t&local_ids_to_receive,\n\t\t\t&sender_processes,\n\t\t\t&number_to_send,\n\t\t\t&global_ids_to_send,\n\t\t\t&local_ids_to_send,\n\t\t\t&receiver_processes\n\t\t\t) != ZOLTAN_OK\n\t\t) {\n\t\t\tif (!this->no_load_balancing) {\n\t\t\t\tif (this->rank == 0) {\n\t\t\t\t\tstd::cerr << "Zoltan_LB_Partition failed" << std::endl;\n\t\t\t\t}\n\t\t\t\tZoltan_Destroy(&this->zoltan);\n\t\t\t\t// TODO: throw an exception instead\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\t#ifdef DEBUG\n\t\t\t// check that processes have the cells they\'re supposed to send\n\t\t\tfor (int i = 0; i < number_to_send; i++) {\n\t\t\t\tif (this->cell_data.count(global_ids_to_send[i]) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cannot send cell " << global_ids_to_send[i]\n\t\t\t\t\t\t<< " to process " << receiver_processes[i]\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// check that cells to be received are on the sending process\n\t\t\tfor (int i = 0; i < number_to_receive; i++) {\n\t\t\t\tif (this->cell_process.at(global_ids_to_receive[i]) != (uint64_t)sender_processes[i]) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cannot receive cell " << global_ids_to_receive[i]\n\t\t\t\t\t\t<< " from process " << sender_processes[i]\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\t\t\t#endif\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\tthis->added_cells.clear();\n\t\tthis->removed_cells.clear();\n\t\tthis->cells_to_receive.clear();\n\t\tthis->cells_to_send.clear();\n\n\t\t/*\n\t\tProcesses and the cells for which data has to be received by this process\n\t\t*/\n\n\t\t// migration from user\n\t\tfor (std::unordered_map<uint64_t, uint64_t>::const_iterator\n\t\t\tpin_request = this->pin_requests.begin();\n\t\t\tpin_request != this->pin_requests.end();\n\t\t\tpin_request++\n\t\t) {\n\t\t\tconst uint64_t current_process_of_cell = this->cell_process.at(pin_request->first);\n\n\t\t\tif (pin_request->second == this->rank\n\t\t\t&& current_process_of_cell != this->rank) {\n\t\t\t\tthis->cells_to_receive[int(current_process_of_cell)].push_back(\n\t\t\t\t\tstd::make_pair(pin_request->first, -1)\n\t\t\t\t);\n\t\t\t\tthis->added_cells.insert(pin_request->first);\n\t\t\t}\n\t\t}\n\n\t\t// migration from Zoltan\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan) {\n\t\t\tfor (int i = 0; i < number_to_receive; i++) {\n\n\t\t\t\t// don\'t send / receive from self\n\t\t\t\tif ((uint64_t)sender_processes[i] == this->rank) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\t// skip user-migrated cells\n\t\t\t\tif (this->pin_requests.count(global_ids_to_receive[i]) > 0) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tthis->cells_to_receive[sender_processes[i]].push_back(\n\t\t\t\t\tstd::make_pair(global_ids_to_receive[i], -1)\n\t\t\t\t);\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->added_cells.count(global_ids_to_receive[i]) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << global_ids_to_receive[i]\n\t\t\t\t\t\t<< " has already been received from process " << this->rank\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\tthis->added_cells.insert(global_ids_to_receive[i]);\n\t\t\t}\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\tthis->sort_and_tag(this->cells_to_receive);\n\n\t\t/*\n\t\tProcesses and the cells for which data has to be sent by this process\n\t\t*/\n\n\t\t// migration from user\n\t\tfor (std::unordered_map<uint64_t, uint64_t>::const_iterator\n\t\t\tpin_request = this->pin_requests.begin();\n\t\t\tpin_request != this->pin_requests.end();\n\t\t\tpin_request++\n\t\t) {\n\t\t\tconst uint64_t current_process_of_cell = this->cell_process.at(pin_request->first);\n\t\t\tconst uint64_t destination_process = pin_request->second;\n\n\t\t\tif (destination_process != this->rank\n\t\t\t&& current_process_of_cell == this->rank) {\n\t\t\t\tthis->cells_to_send[int(destination_process)].push_back(\n\t\t\t\t\tstd::make_pair(pin_request->first, -1)\n\t\t\t\t);\n\t\t\t\tthis->removed_cells.insert(pin_request->first);\n\t\t\t}\n\t\t}\n\n\t\t// migration from Zoltan\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan) {\n\t\t\tfor (int i = 0; i < number_to_send; i++) {\n\n\t\t\t\t// don\'t send / receive from self\n\t\t\t\tif ((uint64_t) receiver_processes[i] == this->rank) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\t// skip user-migrated cells\n\t\t\t\tif (this->pin_requests.count(global_ids_to_send[i]) > 0) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tthis->cells_to_send[receiver_processes[i]].push_back(\n\t\t\t\t\tstd::make_pair(global_ids_to_send[i], -1)\n\t\t\t\t);\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->removed_cells.count(global_ids_to_send[i]) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << global_ids_to_send[i]\n\t\t\t\t\t\t<< " has already been sent from process " << this->rank\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\tthis->removed_cells.insert(global_ids_to_send[i]);\n\t\t\t}\n\n\t\t\tZoltan_LB_Free_Data(\n\t\t\t\t&global_ids_to_receive,\n\t\t\t\t&local_ids_to_receive,\n\t\t\t\t&sender_processes,\n\t\t\t\t&global_ids_to_send,\n\t\t\t\t&local_ids_to_send,\n\t\t\t\t&receiver_processes\n\t\t\t);\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\tthis->sort_and_tag(this->cells_to_send);\n\t}\n\n\n'), ('\tstd::vector<uint64_t> execute_refines()\n\t{\n\t\tusing std::to_string;\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_remote_neighbor_info()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Remote neighbor info is not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_user_data()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " User data is inconsistent" << std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\t\t#endif\n\n\t\tstd::vector<uint64_t> new_cells;\n\n\t\tthis->remote_neighbors.clear();\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\t\tthis->refined_cell_data.clear();\n\t\tthis->unrefined_cell_data.clear();\n\n\t\t#ifdef DEBUG\n\t\t// check that cells_to_refine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_refine(this->cells_to_refine.begin(), this->cells_to_refine.end());\n\t\tstd::sort(ordered_cells_to_refine.begin(), ordered_cells_to_refine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_refine;\n\t\tAll_Gather()(ordered_cells_to_refine, all_ordered_cells_to_refine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_refine[process].begin(),\n\t\t\t\tall_ordered_cells_to_refine[process].end(),\n\t\t\t\tall_ordered_cells_to_refine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_refine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\n\t\t// check that cells_to_unrefine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_unrefine(this->cells_to_unrefine.begin(), this->cells_to_unrefine.end());\n\t\tstd::sort(ordered_cells_to_unrefine.begin(), ordered_cells_to_unrefine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_unrefine;\n\t\tAll_Gather()(ordered_cells_to_unrefine, all_ordered_cells_to_unrefine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_unrefine[process].begin(),\n\t\t\t\tall_ordered_cells_to_unrefine[process].end(),\n\t\t\t\tall_ordered_cells_to_unrefine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_unrefine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\t\t#endif\n\n\t\t// refines\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->rank == this->cell_process.at(refined)\n\t\t\t&& this->cell_data.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Data for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_of.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_to.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor_to list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst auto process_of_refined = this->cell_process.at(refined);\n\n\t\t\t// move user data of refined cells into refined_cell_data\n\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t// TODO: move data instead of copying\n\t\t\t\tthis->refined_cell_data[refined] = this->cell_data.at(refined);\n\t\t\t\tthis->cell_data.erase(refined);\n\t\t\t}\n\n\t\t\t// add children of refined cells into the grid\n\t\t\tconst auto children = this->mapping.get_all_children(refined);\n\t\t\tif (children[0] == error_cell or children[1] == error_cell) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\n\t\t\tfor (const uint64_t child: children) {\n\t\t\t\tthis->cell_process[child] = process_of_refined;\n\n\t\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t\tthis->cell_data[child];\n\t\t\t\t\tthis->neighbors_of[child];\n\t\t\t\t\tthis->neighbors_to[child];\n\t\t\t\t\tnew_cells.push_back(child);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their pin request status\n\t\t\tif (this->pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->pin_requests[child] = this->pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->pin_requests.erase(refined);\n\t\t\t}\n\t\t\tif (this->new_pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->new_pin_requests[child] = this->new_pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->new_pin_requests.erase(refined);\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their weight\n\t\t\tif (this->rank == process_of_refined\n\t\t\t&& this->cell_weights.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->cell_weights[child] = this->cell_weights.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->cell_weights.erase(refined);\n\t\t\t}\n\t\t}\n\n\t\t// initially only one sibling recorded per\n\t\t// process when unrefining, insert rest now\n\t\tstd::unordered_set<uint64_t> all_to_unrefine;\n\t\tstd::unordered_set<uint64_t> parents_of_unrefined;\n\t\tfor (const uint64_t unrefined: this->cells_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (unrefined != this->get_child(unrefined)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Invalid parent cell" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tparents_of_unrefined.insert(parent_of_unrefined);\n\n\t\t\tconst auto siblings = this->mapping.get_all_children(parent_of_unrefined);\n\n\t\t\t// parent will be owned by owner of first child\n\t\t\tthis->cell_process[parent_of_unrefined] = this->cell_process.at(siblings[0]);\n\n\t\t\t#ifdef DEBUG\n\t\t\tbool unrefined_in_siblings = false;\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tif (sibling == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (sibling != this->get_child(sibling)) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has has children"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.at(sibling) == this->rank\n\t\t\t\t&& this->cell_data.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (unrefined == sibling) {\n\t\t\t\t\tunrefined_in_siblings = true;\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tif (!unrefined_in_siblings) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Cell to unrefine isn\'t its parent\'s child" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tall_to_unrefine.insert(sibling);\n\t\t\t}\n\t\t}\n\n\t\t// unrefines\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst uint64_t process_of_parent = this->cell_process.at(parent_of_unrefined);\n\t\t\tconst uint64_t process_of_unrefined = this->cell_process.at(unrefined);\n\n\t\t\t// remove unrefined cells and their siblings\n\t\t\t// from the grid, but don\'t remove user data yet\n\t\t\tthis->cell_process.erase(unrefined);\n\t\t\tthis->pin_requests.erase(unrefined);\n\t\t\tthis->new_pin_requests.erase(unrefined);\n\t\t\tthis->cell_weights.erase(unrefined);\n\n\t\t\t// don\'t send unrefined cells\' user data to self\n\t\t\tif (this->rank == process_of_unrefined\n\t\t\t&& this->rank == process_of_parent) {\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->cell_data.count(unrefined) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t\t<< " to be unrefined has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\t// TODO move data instead of copying\n\t\t\t\tthis->unrefined_cell_data[unrefined] = this->cell_data.at(unrefined);\n\t\t\t\tthis->cell_data.erase(unrefined);\n\n\t\t\t// send user data of removed cell to the parent\'s process\n\t\t\t} else if (this->rank == process_of_unrefined) {\n\n\t\t\t\tthis->cells_to_send[process_of_parent].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\n\t\t\t// receive user data of removed cell from its process\n\t\t\t} else if (this->rank == process_of_parent) {\n\t\t\t\tthis->cells_to_receive[process_of_unrefined].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\n\t\t// receive cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\tsender = this->cells_to_receive.begin();\n\t\t\tsender != this->cells_to_receive.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tstd::sort(sender->second.begin(), sender->second.end());\n\t\t\t// TODO: merge with identical code in make_new_partition\n\t\t\tfor (unsigned int i = 0; i < sender->second.size(); i++) {\n\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << sender->second[i].first\n\t\t\t\t\t\t<< " from process " << sender->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tsender->second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\t\t// send cells in known order and add message tags\n\t\tfor (auto& receiver: this->cells_to_send) {\n\t\t\tstd::sort(receiver.second.begin(), receiver.second.end());\n\t\t\tfor (unsigned int i = 0; i < receiver.second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << receiver.second[i].first\n\t\t\t\t\t\t<< " to process " << receiver.first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\treceiver.second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\n\t\tthis->start_user_data_transfers(\n\t\t\tthis->unrefined_cell_data,\n\t\t\tthis->cells_to_receive,\n\t\t\tthis->cells_to_send,\n\t\t\t-3\n\t\t);\n\n\t\tthis->wait_user_data_transfer_receives();\n\n\t\t// default construct unrefined cells\' parents\' user data\n\t\tfor (const uint64_t parent: parents_of_unrefined) {\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(parent) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\tif (parent != this->get_child(parent)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " still has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tif (this->cell_process.at(parent) == this->rank) {\n\t\t\t\tthis->cell_data[parent];\n\t\t\t}\n\t\t}\n\n\t\tthis->wait_user_data_transfer_sends();\n\n\t\t// now can remove user data of unrefined cells\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\t\t\tthis->cell_data.erase(unrefined);\n\t\t}\n\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_user_data()) {\n\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t}\n\t\t#endif\n\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\t\t\tthis->cell_process.erase(refined);\n\t\t}\n\t\tthis->cells_to_refine.clear();\n\t\tthis->cells_to_unrefine.clear();\n\n', '\tstd::vector<uint64_t> execute_refines()\n\t{\n\t\tusing std::to_string;\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_remote_neighbor_info()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Remote neighbor info is not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_user_data()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " User data is inconsistent" << std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\t\t#endif\n\n\t\tstd::vector<uint64_t> new_cells;\n\n\t\tthis->remote_neighbors.clear();\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\t\tthis->refined_cell_data.clear();\n\t\tthis->unrefined_cell_data.clear();\n\n\t\t#ifdef DEBUG\n\t\t// check that cells_to_refine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_refine(this->cells_to_refine.begin(), this->cells_to_refine.end());\n\t\tstd::sort(ordered_cells_to_refine.begin(), ordered_cells_to_refine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_refine;\n\t\tAll_Gather()(ordered_cells_to_refine, all_ordered_cells_to_refine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_refine[process].begin(),\n\t\t\t\tall_ordered_cells_to_refine[process].end(),\n\t\t\t\tall_ordered_cells_to_refine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_refine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\n\t\t// check that cells_to_unrefine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_unrefine(this->cells_to_unrefine.begin(), this->cells_to_unrefine.end());\n\t\tstd::sort(ordered_cells_to_unrefine.begin(), ordered_cells_to_unrefine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_unrefine;\n\t\tAll_Gather()(ordered_cells_to_unrefine, all_ordered_cells_to_unrefine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_unrefine[process].begin(),\n\t\t\t\tall_ordered_cells_to_unrefine[process].end(),\n\t\t\t\tall_ordered_cells_to_unrefine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_unrefine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\t\t#endif\n\n\t\t// refines\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->rank == this->cell_process.at(refined)\n\t\t\t&& this->cell_data.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Data for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_of.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_to.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor_to list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst auto process_of_refined = this->cell_process.at(refined);\n\n\t\t\t// move user data of refined cells into refined_cell_data\n\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t// TODO: move data instead of copying\n\t\t\t\tthis->refined_cell_data[refined] = this->cell_data.at(refined);\n\t\t\t\tthis->cell_data.erase(refined);\n\t\t\t}\n\n\t\t\t// add children of refined cells into the grid\n\t\t\tconst auto children = this->mapping.get_all_children(refined);\n\t\t\tif (children[0] == error_cell or children[1] == error_cell) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\n\t\t\tfor (const uint64_t child: children) {\n\t\t\t\tthis->cell_process[child] = process_of_refined;\n\n\t\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t\tthis->cell_data[child];\n\t\t\t\t\tthis->neighbors_of[child];\n\t\t\t\t\tthis->neighbors_to[child];\n\t\t\t\t\tnew_cells.push_back(child);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their pin request status\n\t\t\tif (this->pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->pin_requests[child] = this->pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->pin_requests.erase(refined);\n\t\t\t}\n\t\t\tif (this->new_pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->new_pin_requests[child] = this->new_pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->new_pin_requests.erase(refined);\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their weight\n\t\t\tif (this->rank == process_of_refined\n\t\t\t&& this->cell_weights.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->cell_weights[child] = this->cell_weights.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->cell_weights.erase(refined);\n\t\t\t}\n\t\t}\n\n\t\t// initially only one sibling recorded per\n\t\t// process when unrefining, insert rest now\n\t\tstd::unordered_set<uint64_t> all_to_unrefine;\n\t\tstd::unordered_set<uint64_t> parents_of_unrefined;\n\t\tfor (const uint64_t unrefined: this->cells_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (unrefined != this->get_child(unrefined)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Invalid parent cell" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tparents_of_unrefined.insert(parent_of_unrefined);\n\n\t\t\tconst auto siblings = this->mapping.get_all_children(parent_of_unrefined);\n\n\t\t\t// parent will be owned by owner of first child\n\t\t\tthis->cell_process[parent_of_unrefined] = this->cell_process.at(siblings[0]);\n\n\t\t\t#ifdef DEBUG\n\t\t\tbool unrefined_in_siblings = false;\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tif (sibling == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (sibling != this->get_child(sibling)) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has has children"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.at(sibling) == this->rank\n\t\t\t\t&& this->cell_data.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (unrefined == sibling) {\n\t\t\t\t\tunrefined_in_siblings = true;\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tif (!unrefined_in_siblings) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Cell to unrefine isn\'t its parent\'s child" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tall_to_unrefine.insert(sibling);\n\t\t\t}\n\t\t}\n\n\t\t// unrefines\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst uint64_t process_of_parent = this->cell_process.at(parent_of_unrefined);\n\t\t\tconst uint64_t process_of_unrefined = this->cell_process.at(unrefined);\n\n\t\t\t// remove unrefined cells and their siblings\n\t\t\t// from the grid, but don\'t remove user data yet\n\t\t\tthis->cell_process.erase(unrefined);\n\t\t\tthis->pin_requests.erase(unrefined);\n\t\t\tthis->new_pin_requests.erase(unrefined);\n\t\t\tthis->cell_weights.erase(unrefined);\n\n\t\t\t// don\'t send unrefined cells\' user data to self\n\t\t\tif (this->rank == process_of_unrefined\n\t\t\t&& this->rank == process_of_parent) {\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->cell_data.count(unrefined) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t\t<< " to be unrefined has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\t// TODO move data instead of copying\n\t\t\t\tthis->unrefined_cell_data[unrefined] = this->cell_data.at(unrefined);\n\t\t\t\tthis->cell_data.erase(unrefined);\n\n\t\t\t// send user data of removed cell to the parent\'s process\n\t\t\t} else if (this->rank == process_of_unrefined) {\n\n\t\t\t\tthis->cells_to_send[process_of_parent].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\n\t\t\t// receive user data of removed cell from its process\n\t\t\t} else if (this->rank == process_of_parent) {\n\t\t\t\tthis->cells_to_receive[process_of_unrefined].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\n\t\tthis->sort_and_tag(this->cells_to_receive);\n\t\tthis->sort_and_tag(this->cells_to_send);\n\t\tthis->start_user_data_transfers(\n\t\t\tthis->unrefined_cell_data,\n\t\t\tthis->cells_to_receive,\n\t\t\tthis->cells_to_send,\n\t\t\t-3\n\t\t);\n\n\t\tthis->wait_user_data_transfer_receives();\n\n\t\t// default construct unrefined cells\' parents\' user data\n\t\tfor (const uint64_t parent: parents_of_unrefined) {\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(parent) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\tif (parent != this->get_child(parent)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " still has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tif (this->cell_process.at(parent) == this->rank) {\n\t\t\t\tthis->cell_data[parent];\n\t\t\t}\n\t\t}\n\n\t\tthis->wait_user_data_transfer_sends();\n\n\t\t// now can remove user data of unrefined cells\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\t\t\tthis->cell_data.erase(unrefined);\n\t\t}\n\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_user_data()) {\n\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t}\n\t\t#endif\n\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\t\t\tthis->cell_process.erase(refined);\n\t\t}\n\t\tthis->cells_to_refine.clear();\n\t\tthis->cells_to_unrefine.clear();\n\n'))
same('p-part-one-loop', ('\tvoid make_new_partition(const bool use_zoltan)\n\t{\n\t\tthis->update_pin_requests();\n\n\t\tint\n\t\t\tpartition_changed,\n\t\t\tglobal_id_size,\n\t\t\tlocal_id_size,\n\t\t\tnumber_to_receive,\n\t\t\tnumber_to_send,\n\t\t\t*sender_processes,\n\t\t\t*receiver_processes;\n\n\t\tZOLTAN_ID_PTR\n\t\t\tglobal_ids_to_receive,\n\t\t\tlocal_ids_to_receive,\n\t\t\tglobal_ids_to_send,\n\t\t\tlocal_ids_to_send;\n\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan && Zoltan_LB_Balance(\n\t\t\tthis->zoltan,\n\t\t\t&partition_changed,\n\t\t\t&global_id_size,\n\t\t\t&local_id_size,\n\t\t\t&number_to_receive,\n\t\t\t&global_ids_to_receive,\n\t\t\t&local_ids_to_receive,\n\t\t\t&sender_processes,\n\t\t\t&number_to_send,\n\t\t\t&global_ids_to_send,\n\t\t\t&local_ids_to_send,\n\t\t\t&receiver_processes\n\t\t\t) != ZOLTAN_OK\n\t\t) {\n\t\t\tif (!this->no_load_balancing) {\n\t\t\t\tif (this->rank == 0) {\n\t\t\t\t\tstd::cerr << "Zoltan_LB_Partition failed" << std::endl;\n\t\t\t\t}\n\t\t\t\tZoltan_Destroy(&this->zoltan);\n\t\t\t\t// TODO: throw an exception instead\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\t#ifdef DEBUG\n\t\t\t// check that processes have the cells they\'re supposed to send\n\t\t\tfor (int i = 0; i < number_to_send; i++) {\n\t\t\t\tif (this->cell_data.count(global_ids_to_send[i]) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cannot send cell " << global_ids_to_send[i]\n\t\t\t\t\t\t<< " to process " << receiver_processes[i]\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// check that cells to be received are on the sending process\n\t\t\tfor (int i = 0; i < number_to_receive; i++) {\n\t\t\t\tif (this->cell_process.at(global_ids_to_receive[i]) != (uint64_t)sender_processes[i]) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cannot receive cell " << global_ids_to_receive[i]\n\t\t\t\t\t\t<< " from process " << sender_processes[i]\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\t\t\t#endif\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\tthis->added_cells.clear();\n\t\tthis->removed_cells.clear();\n\t\tthis->cells_to_receive.clear();\n\t\tthis->cells_to_send.clear();\n\n\t\t/*\n\t\tProcesses and the cells for which data has to be received by this process\n\t\t*/\n\n\t\t// migration from user\n\t\tfor (std::unordered_map<uint64_t, uint64_t>::const_iterator\n\t\t\tpin_request = this->pin_requests.begin();\n\t\t\tpin_request != this->pin_requests.end();\n\t\t\tpin_request++\n\t\t) {\n\t\t\tconst uint64_t current_process_of_cell = this->cell_process.at(pin_request->first);\n\n\t\t\tif (pin_request->second == this->rank\n\t\t\t&& current_process_of_cell != this->rank) {\n\t\t\t\tthis->cells_to_receive[int(current_process_of_cell)].push_back(\n\t\t\t\t\tstd::make_pair(pin_request->first, -1)\n\t\t\t\t);\n\t\t\t\tthis->added_cells.insert(pin_request->first);\n\t\t\t}\n\t\t}\n\n\t\t// migration from Zoltan\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan) {\n\t\t\tfor (int i = 0; i < number_to_receive; i++) {\n\n\t\t\t\t// don\'t send / receive from self\n\t\t\t\tif ((uint64_t)sender_processes[i] == this->rank) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\t// skip user-migrated cells\n\t\t\t\tif (this->pin_requests.count(global_ids_to_receive[i]) > 0) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tthis->cells_to_receive[sender_processes[i]].push_back(\n\t\t\t\t\tstd::make_pair(global_ids_to_receive[i], -1)\n\t\t\t\t);\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->added_cells.count(global_ids_to_receive[i]) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << global_ids_to_receive[i]\n\t\t\t\t\t\t<< " has already been received from process " << this->rank\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\tthis->added_cells.insert(global_ids_to_receive[i]);\n\t\t\t}\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\t// receive cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\tsender = this->cells_to_receive.begin();\n\t\t\tsender != this->cells_to_receive.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tstd::sort(sender->second.begin(), sender->second.end());\n\n\t\t\tfor (unsigned int i = 0; i < sender->second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << sender->second[i].first\n\t\t\t\t\t\t<< " from process " << sender->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tsender->second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\n\t\t/*\n\t\tProcesses and the cells for which data has to be sent by this process\n\t\t*/\n\n\t\t// migration from user\n\t\tfor (std::unordered_map<uint64_t, uint64_t>::const_iterator\n\t\t\tpin_request = this->pin_requests.begin();\n\t\t\tpin_request != this->pin_requests.end();\n\t\t\tpin_request++\n\t\t) {\n\t\t\tconst uint64_t current_process_of_cell = this->cell_process.at(pin_request->first);\n\t\t\tconst uint64_t destination_process = pin_request->second;\n\n\t\t\tif (destination_process != this->rank\n\t\t\t&& current_process_of_cell == this->rank) {\n\t\t\t\tthis->cells_to_send[int(destination_process)].push_back(\n\t\t\t\t\tstd::make_pair(pin_request->first, -1)\n\t\t\t\t);\n\t\t\t\tthis->removed_cells.insert(pin_request->first);\n\t\t\t}\n\t\t}\n\n\t\t// migration from Zoltan\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan) {\n\t\t\tfor (int i = 0; i < number_to_send; i++) {\n\n\t\t\t\t// don\'t send / receive from self\n\t\t\t\tif ((uint64_t) receiver_processes[i] == this->rank) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\t// skip user-migrated cells\n\t\t\t\tif (this->pin_requests.count(global_ids_to_send[i]) > 0) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tthis->cells_to_send[receiver_processes[i]].push_back(\n\t\t\t\t\tstd::make_pair(global_ids_to_send[i], -1)\n\t\t\t\t);\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->removed_cells.count(global_ids_to_send[i]) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << global_ids_to_send[i]\n\t\t\t\t\t\t<< " has already been sent from process " << this->rank\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\tthis->removed_cells.insert(global_ids_to_send[i]);\n\t\t\t}\n\n\t\t\tZoltan_LB_Free_Data(\n\t\t\t\t&global_ids_to_receive,\n\t\t\t\t&local_ids_to_receive,\n\t\t\t\t&sender_processes,\n\t\t\t\t&global_ids_to_send,\n\t\t\t\t&local_ids_to_send,\n\t\t\t\t&receiver_processes\n\t\t\t);\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\t// send cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\treceiver = this->cells_to_send.begin();\n\t\t\treceiver != this->cells_to_send.end();\n\t\t\treceiver++\n\t\t) {\n\t\t\tstd::sort(receiver->second.begin(), receiver->second.end());\n\t\t\tfor (unsigned int i = 0; i < receiver->second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << receiver->second[i].first\n\t\t\t\t\t\t<< " to process " << receiver->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\treceiver->second[i].second = tag;\n\t\t\t}\n\t\t}\n\t}\n\n\n', '\tvoid make_new_partition(const bool use_zoltan)\n\t{\n\t\tthis->update_pin_requests();\n\n\t\tint\n\t\t\tpartition_changed,\n\t\t\tglobal_id_size,\n\t\t\tlocal_id_size,\n\t\t\tnumber_to_receive,\n\t\t\tnumber_to_send,\n\t\t\t*sender_processes,\n\t\t\t*receiver_processes;\n\n\t\tZOLTAN_ID_PTR\n\t\t\tglobal_ids_to_receive,\n\t\t\tlocal_ids_to_receive,\n\t\t\tglobal_ids_to_send,\n\t\t\tlocal_ids_to_send;\n\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan && Zoltan_LB_Balance(\n\t\t\tthis->zoltan,\n\t\t\t&partition_changed,\n\t\t\t&global_id_size,\n\t\t\t&local_id_size,\n\t\t\t&number_to_receive,\n\t\t\t&global_ids_to_receive,\n\t\t\t&local_ids_to_receive,\n\t\t\t&sender_processes,\n\t\t\t&number_to_send,\n\t\t\t&global_ids_to_send,\n\t\t\t&local_ids_to_send,\n\t\t\t&receiver_processes\n\t\t\t) != ZOLTAN_OK\n\t\t) {\n\t\t\tif (!this->no_load_balancing) {\n\t\t\t\tif (this->rank == 0) {\n\t\t\t\t\tstd::cerr << "Zoltan_LB_Partition failed" << std::endl;\n\t\t\t\t}\n\t\t\t\tZoltan_Destroy(&this->zoltan);\n\t\t\t\t// TODO: throw an exception instead\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\t#ifdef DEBUG\n\t\t\t// check that processes have the cells they\'re supposed to send\n\t\t\tfor (int i = 0; i < number_to_send; i++) {\n\t\t\t\tif (this->cell_data.count(global_ids_to_send[i]) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cannot send cell " << global_ids_to_send[i]\n\t\t\t\t\t\t<< " to process " << receiver_processes[i]\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// check that cells to be received are on the sending process\n\t\t\tfor (int i = 0; i < number_to_receive; i++) {\n\t\t\t\tif (this->cell_process.at(global_ids_to_receive[i]) != (uint64_t)sender_processes[i]) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cannot receive cell " << global_ids_to_receive[i]\n\t\t\t\t\t\t<< " from process " << sender_processes[i]\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\t\t\t#endif\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\tthis->added_cells.clear();\n\t\tthis->removed_cells.clear();\n\t\tthis->cells_to_receive.clear();\n\t\tthis->cells_to_send.clear();\n\n\t\t/*\n\t\tProcesses and the cells for which data has to be received by this process\n\t\t*/\n\n\t\t// migration from user\n\t\tfor (const auto& pin_request: this->pin_requests) {\n\t\t\tconst uint64_t\n\t\t\t\tcell = pin_request.first,\n\t\t\t\tsource = this->cell_process.at(cell),\n\t\t\t\ttarget = pin_request.second;\n\t\t\tif (source == target) {\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\tif (target == this->rank) {\n\t\t\t\tthis->cells_to_receive[int(source)].push_back(std::make_pair(cell, -1));\n\t\t\t\tthis->added_cells.insert(cell);\n\t\t\t} else if (source == this->rank) {\n\t\t\t\tthis->cells_to_send[int(target)].push_back(std::make_pair(cell, -1));\n\t\t\t\tthis->removed_cells.insert(cell);\n\t\t\t}\n\t\t}\n\n\t\t// migration from Zoltan\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan) {\n\t\t\tfor (int i = 0; i < number_to_receive; i++) {\n\n\t\t\t\t// don\'t send / receive from self\n\t\t\t\tif ((uint64_t)sender_processes[i] == this->rank) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\t// skip user-migrated cells\n\t\t\t\tif (this->pin_requests.count(global_ids_to_receive[i]) > 0) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tthis->cells_to_receive[sender_processes[i]].push_back(\n\t\t\t\t\tstd::make_pair(global_ids_to_receive[i], -1)\n\t\t\t\t);\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->added_cells.count(global_ids_to_receive[i]) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << global_ids_to_receive[i]\n\t\t\t\t\t\t<< " has already been received from process " << this->rank\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\tthis->added_cells.insert(global_ids_to_receive[i]);\n\t\t\t}\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\t// receive cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\tsender = this->cells_to_receive.begin();\n\t\t\tsender != this->cells_to_receive.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tstd::sort(sender->second.begin(), sender->second.end());\n\n\t\t\tfor (unsigned int i = 0; i < sender->second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << sender->second[i].first\n\t\t\t\t\t\t<< " from process " << sender->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tsender->second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\n\t\t/*\n\t\tProcesses and the cells for which data has to be sent by this process\n\t\t*/\n\n\t\t// migration from Zoltan\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan) {\n\t\t\tfor (int i = 0; i < number_to_send; i++) {\n\n\t\t\t\t// don\'t send / receive from self\n\t\t\t\tif ((uint64_t) receiver_processes[i] == this->rank) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\t// skip user-migrated cells\n\t\t\t\tif (this->pin_requests.count(global_ids_to_send[i]) > 0) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tthis->cells_to_send[receiver_processes[i]].push_back(\n\t\t\t\t\tstd::make_pair(global_ids_to_send[i], -1)\n\t\t\t\t);\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->removed_cells.count(global_ids_to_send[i]) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << global_ids_to_send[i]\n\t\t\t\t\t\t<< " has already been sent from process " << this->rank\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\tthis->removed_cells.insert(global_ids_to_send[i]);\n\t\t\t}\n\n\t\t\tZoltan_LB_Free_Data(\n\t\t\t\t&global_ids_to_receive,\n\t\t\t\t&local_ids_to_receive,\n\t\t\t\t&sender_processes,\n\t\t\t\t&global_ids_to_send,\n\t\t\t\t&local_ids_to_send,\n\t\t\t\t&receiver_processes\n\t\t\t);\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\t// send cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\treceiver = this->cells_to_send.begin();\n\t\t\treceiver != this->cells_to_send.end();\n\t\t\treceiver++\n\t\t) {\n\t\t\tstd::sort(receiver->second.begin(), receiver->second.end());\n\t\t\tfor (unsigned int i = 0; i < receiver->second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << receiver->second[i].first\n\t\t\t\t\t\t<< " to process " << receiver->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\treceiver->second[i].second = tag;\n\t\t\t}\n\t\t}\n\t}\n\n\n'))
same('p-part-lambda', ('\tvoid make_new_partition(const bool use_zoltan)\n\t{\n\t\tthis->update_pin_requests();\n\n\t\tint\n\t\t\tpartition_changed,\n\t\t\tglobal_id_size,\n\t\t\tlocal_id_size,\n\t\t\tnumber_to_receive,\n\t\t\tnumber_to_send,\n\t\t\t*sender_processes,\n\t\t\t*receiver_processes;\n\n\t\tZOLTAN_ID_PTR\n\t\t\tglobal_ids_to_receive,\n\t\t\tlocal_ids_to_receive,\n\t\t\tglobal_ids_to_send,\n\t\t\tlocal_ids_to_send;\n\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan && Zoltan_LB_Balance(\n\t\t\tthis->zoltan,\n\t\t\t&partition_changed,\n\t\t\t&global_id_size,\n\t\t\t&local_id_size,\n\t\t\t&number_to_receive,\n\t\t\t&global_ids_to_receive,\n\t\t\t&local_ids_to_receive,\n\t\t\t&sender_processes,\n\t\t\t&number_to_send,\n\t\t\t&global_ids_to_send,\n\t\t\t&local_ids_to_send,\n\t\t\t&receiver_processes\n\t\t\t) != ZOLTAN_OK\n\t\t) {\n\t\t\tif (!this->no_load_balancing) {\n\t\t\t\tif (this->rank == 0) {\n\t\t\t\t\tstd::cerr << "Zoltan_LB_Partition failed" << std::endl;\n\t\t\t\t}\n\t\t\t\tZoltan_Destroy(&this->zoltan);\n\t\t\t\t// TODO: throw an exception instead\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\t#ifdef DEBUG\n\t\t\t// check that processes have the cells they\'re supposed to send\n\t\t\tfor (int i = 0; i < number_to_send; i++) {\n\t\t\t\tif (this->cell_data.count(global_ids_to_send[i]) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cannot send cell " << global_ids_to_send[i]\n\t\t\t\t\t\t<< " to process " << receiver_processes[i]\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// check that cells to be received are on the sending process\n\t\t\tfor (int i = 0; i < number_to_receive; i++) {\n\t\t\t\tif (this->cell_process.at(global_ids_to_receive[i]) != (uint64_t)sender_processes[i]) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cannot receive cell " << global_ids_to_receive[i]\n\t\t\t\t\t\t<< " from process " << sender_processes[i]\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\t\t\t#endif\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\tthis->added_cells.clear();\n\t\tthis->removed_cells.clear();\n\t\tthis->cells_to_receive.clear();\n\t\tthis->cells_to_send.clear();\n\n\t\t/*\n\t\tProcesses and the cells for which data has to be received by this process\n\t\t*/\n\n\t\t// migration from user\n\t\tfor (std::unordered_map<uint64_t, uint64_t>::const_iterator\n\t\t\tpin_request = this->pin_requests.begin();\n\t\t\tpin_request != this->pin_requests.end();\n\t\t\tpin_request++\n\t\t) {\n\t\t\tconst uint64_t current_process_of_cell = this->cell_process.at(pin_request->first);\n\n\t\t\tif (pin_request->second == this->rank\n\t\t\t&& current_process_of_cell != this->rank) {\n\t\t\t\tthis->cells_to_receive[int(current_process_of_cell)].push_back(\n\t\t\t\t\tstd::make_pair(pin_request->first, -1)\n\t\t\t\t);\n\t\t\t\tthis->added_cells.insert(pin_request->first);\n\t\t\t}\n\t\t}\n\n\t\t// migration from Zoltan\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan) {\n\t\t\tfor (int i = 0; i < number_to_receive; i++) {\n\n\t\t\t\t// don\'t send / receive from self\n\t\t\t\tif ((uint64_t)sender_processes[i] == this->rank) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\t// skip user-migrated cells\n\t\t\t\tif (this->pin_requests.count(global_ids_to_receive[i]) > 0) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tthis->cells_to_receive[sender_processes[i]].push_back(\n\t\t\t\t\tstd::make_pair(global_ids_to_receive[i], -1)\n\t\t\t\t);\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->added_cells.count(global_ids_to_receive[i]) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << global_ids_to_receive[i]\n\t\t\t\t\t\t<< " has already been received from process " << this->rank\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\tthis->added_cells.insert(global_ids_to_receive[i]);\n\t\t\t}\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\t// receive cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\tsender = this->cells_to_receive.begin();\n\t\t\tsender != this->cells_to_receive.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tstd::sort(sender->second.begin(), sender->second.end());\n\n\t\t\tfor (unsigned int i = 0; i < sender->second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << sender->second[i].first\n\t\t\t\t\t\t<< " from process " << sender->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tsender->second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\n\t\t/*\n\t\tProcesses and the cells for which data has to be sent by this process\n\t\t*/\n\n\t\t// migration from user\n\t\tfor (std::unordered_map<uint64_t, uint64_t>::const_iterator\n\t\t\tpin_request = this->pin_requests.begin();\n\t\t\tpin_request != this->pin_requests.end();\n\t\t\tpin_request++\n\t\t) {\n\t\t\tconst uint64_t current_process_of_cell = this->cell_process.at(pin_request->first);\n\t\t\tconst uint64_t destination_process = pin_request->second;\n\n\t\t\tif (destination_process != this->rank\n\t\t\t&& current_process_of_cell == this->rank) {\n\t\t\t\tthis->cells_to_send[int(destination_process)].push_back(\n\t\t\t\t\tstd::make_pair(pin_request->first, -1)\n\t\t\t\t);\n\t\t\t\tthis->removed_cells.insert(pin_request->first);\n\t\t\t}\n\t\t}\n\n\t\t// migration from Zoltan\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan) {\n\t\t\tfor (int i = 0; i < number_to_send; i++) {\n\n\t\t\t\t// don\'t send / receive from self\n\t\t\t\tif ((uint64_t) receiver_processes[i] == this->rank) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\t// skip user-migrated cells\n\t\t\t\tif (this->pin_requests.count(global_ids_to_send[i]) > 0) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tthis->cells_to_send[receiver_processes[i]].push_back(\n\t\t\t\t\tstd::make_pair(global_ids_to_send[i], -1)\n\t\t\t\t);\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->removed_cells.count(global_ids_to_send[i]) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << global_ids_to_send[i]\n\t\t\t\t\t\t<< " has already been sent from process " << this->rank\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\tthis->removed_cells.insert(global_ids_to_send[i]);\n\t\t\t}\n\n\t\t\tZoltan_LB_Free_Data(\n\t\t\t\t&global_ids_to_receive,\n\t\t\t\t&local_ids_to_receive,\n\t\t\t\t&sender_processes,\n\t\t\t\t&global_ids_to_send,\n\t\t\t\t&local_ids_to_send,\n\t\t\t\t&receiver_processes\n\t\t\t);\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\t// send cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\treceiver = this->cells_to_send.begin();\n\t\t\treceiver != this->cells_to_send.end();\n\t\t\treceiver++\n\t\t) {\n\t\t\tstd::sort(receiver->second.begin(), receiver->second.end());\n\t\t\tfor (unsigned int i = 0; i < receiver->second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << receiver->second[i].first\n\t\t\t\t\t\t<< " to process " << receiver->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\treceiver->second[i].second = tag;\n\t\t\t}\n\t\t}\n\t}\n\n\n', '\tvoid make_new_partition(const bool use_zoltan)\n\t{\n\t\tthis->update_pin_requests();\n\n\t\tint\n\t\t\tpartition_changed,\n\t\t\tglobal_id_size,\n\t\t\tlocal_id_size,\n\t\t\tnumber_to_receive,\n\t\t\tnumber_to_send,\n\t\t\t*sender_processes,\n\t\t\t*receiver_processes;\n\n\t\tZOLTAN_ID_PTR\n\t\t\tglobal_ids_to_receive,\n\t\t\tlocal_ids_to_receive,\n\t\t\tglobal_ids_to_send,\n\t\t\tlocal_ids_to_send;\n\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan && Zoltan_LB_Balance(\n\t\t\tthis->zoltan,\n\t\t\t&partition_changed,\n\t\t\t&global_id_size,\n\t\t\t&local_id_size,\n\t\t\t&number_to_receive,\n\t\t\t&global_ids_to_receive,\n\t\t\t&local_ids_to_receive,\n\t\t\t&sender_processes,\n\t\t\t&number_to_send,\n\t\t\t&global_ids_to_send,\n\t\t\t&local_ids_to_send,\n\t\t\t&receiver_processes\n\t\t\t) != ZOLTAN_OK\n\t\t) {\n\t\t\tif (!this->no_load_balancing) {\n\t\t\t\tif (this->rank == 0) {\n\t\t\t\t\tstd::cerr << "Zoltan_LB_Partition failed" << std::endl;\n\t\t\t\t}\n\t\t\t\tZoltan_Destroy(&this->zoltan);\n\t\t\t\t// TODO: throw an exception instead\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\t#ifdef DEBUG\n\t\t\t// check that processes have the cells they\'re supposed to send\n\t\t\tfor (int i = 0; i < number_to_send; i++) {\n\t\t\t\tif (this->cell_data.count(global_ids_to_send[i]) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cannot send cell " << global_ids_to_send[i]\n\t\t\t\t\t\t<< " to process " << receiver_processes[i]\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// check that cells to be received are on the sending process\n\t\t\tfor (int i = 0; i < number_to_receive; i++) {\n\t\t\t\tif (this->cell_process.at(global_ids_to_receive[i]) != (uint64_t)sender_processes[i]) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cannot receive cell " << global_ids_to_receive[i]\n\t\t\t\t\t\t<< " from process " << sender_processes[i]\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\t\t\t#endif\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\tthis->added_cells.clear();\n\t\tthis->removed_cells.clear();\n\t\tthis->cells_to_receive.clear();\n\t\tthis->cells_to_send.clear();\n\n\t\tconst auto schedule = [](\n\t\t\tconst uint64_t cell,\n\t\t\tconst int process,\n\t\t\tstd::unordered_map<int, std::vector<std::pair<uint64_t, int>>>& transfers,\n\t\t\tstd::unordered_set<uint64_t>& cells\n\t\t) {\n\t\t\ttransfers[process].push_back(std::make_pair(cell, -1));\n\t\t\tcells.insert(cell);\n\t\t};\n\n\t\t/*\n\t\tProcesses and the cells for which data has to be received by this process\n\t\t*/\n\n\t\t// migration from user\n\t\tfor (std::unordered_map<uint64_t, uint64_t>::const_iterator\n\t\t\tpin_request = this->pin_requests.begin();\n\t\t\tpin_request != this->pin_requests.end();\n\t\t\tpin_request++\n\t\t) {\n\t\t\tconst uint64_t current_process_of_cell = this->cell_process.at(pin_request->first);\n\n\t\t\tif (pin_request->second == this->rank\n\t\t\t&& current_process_of_cell != this->rank) {\n\t\t\t\tschedule(pin_request->first, int(current_process_of_cell), this->cells_to_receive, this->added_cells);\n\t\t\t}\n\t\t}\n\n\t\t// migration from Zoltan\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan) {\n\t\t\tfor (int i = 0; i < number_to_receive; i++) {\n\n\t\t\t\t// don\'t send / receive from self\n\t\t\t\tif ((uint64_t)sender_processes[i] == this->rank) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\t// skip user-migrated cells\n\t\t\t\tif (this->pin_requests.count(global_ids_to_receive[i]) > 0) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tthis->cells_to_receive[sender_processes[i]].push_back(\n\t\t\t\t\tstd::make_pair(global_ids_to_receive[i], -1)\n\t\t\t\t);\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->added_cells.count(global_ids_to_receive[i]) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << global_ids_to_receive[i]\n\t\t\t\t\t\t<< " has already been received from process " << this->rank\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\tthis->added_cells.insert(global_ids_to_receive[i]);\n\t\t\t}\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\t// receive cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\tsender = this->cells_to_receive.begin();\n\t\t\tsender != this->cells_to_receive.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tstd::sort(sender->second.begin(), sender->second.end());\n\n\t\t\tfor (unsigned int i = 0; i < sender->second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << sender->second[i].first\n\t\t\t\t\t\t<< " from process " << sender->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tsender->second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\n\t\t/*\n\t\tProcesses and the cells for which data has to be sent by this process\n\t\t*/\n\n\t\t// migration from user\n\t\tfor (std::unordered_map<uint64_t, uint64_t>::const_iterator\n\t\t\tpin_request = this->pin_requests.begin();\n\t\t\tpin_request != this->pin_requests.end();\n\t\t\tpin_request++\n\t\t) {\n\t\t\tconst uint64_t current_process_of_cell = this->cell_process.at(pin_request->first);\n\t\t\tconst uint64_t destination_process = pin_request->second;\n\n\t\t\tif (destination_process != this->rank\n\t\t\t&& current_process_of_cell == this->rank) {\n\t\t\t\tschedule(pin_request->first, int(destination_process), this->cells_to_send, this->removed_cells);\n\t\t\t}\n\t\t}\n\n\t\t// migration from Zoltan\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan) {\n\t\t\tfor (int i = 0; i < number_to_send; i++) {\n\n\t\t\t\t// don\'t send / receive from self\n\t\t\t\tif ((uint64_t) receiver_processes[i] == this->rank) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\t// skip user-migrated cells\n\t\t\t\tif (this->pin_requests.count(global_ids_to_send[i]) > 0) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tthis->cells_to_send[receiver_processes[i]].push_back(\n\t\t\t\t\tstd::make_pair(global_ids_to_send[i], -1)\n\t\t\t\t);\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->removed_cells.count(global_ids_to_send[i]) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << global_ids_to_send[i]\n\t\t\t\t\t\t<< " has already been sent from process " << this->rank\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\tthis->removed_cells.insert(global_ids_to_send[i]);\n\t\t\t}\n\n\t\t\tZoltan_LB_Free_Data(\n\t\t\t\t&global_ids_to_receive,\n\t\t\t\t&local_ids_to_receive,\n\t\t\t\t&sender_processes,\n\t\t\t\t&global_ids_to_send,\n\t\t\t\t&local_ids_to_send,\n\t\t\t\t&receiver_processes\n\t\t\t);\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\t// send cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\treceiver = this->cells_to_send.begin();\n\t\t\treceiver != this->cells_to_send.end();\n\t\t\treceiver++\n\t\t) {\n\t\t\tstd::sort(receiver->second.begin(), receiver->second.end());\n\t\t\tfor (unsigned int i = 0; i < receiver->second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << receiver->second[i].first\n\t\t\t\t\t\t<< " to process " << receiver->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\treceiver->second[i].second = tag;\n\t\t\t}\n\t\t}\n\t}\n\n\n'))
same('p-part-flags', ('\tvoid make_new_partition(const bool use_zoltan)\n\t{\n\t\tthis->update_pin_requests();\n\n\t\tint\n\t\t\tpartition_changed,\n\t\t\tglobal_id_size,\n\t\t\tlocal_id_size,\n\t\t\tnumber_to_receive,\n\t\t\tnumber_to_send,\n\t\t\t*sender_processes,\n\t\t\t*receiver_processes;\n\n\t\tZOLTAN_ID_PTR\n\t\t\tglobal_ids_to_receive,\n\t\t\tlocal_ids_to_receive,\n\t\t\tglobal_ids_to_send,\n\t\t\tlocal_ids_to_send;\n\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan && Zoltan_LB_Balance(\n\t\t\tthis->zoltan,\n\t\t\t&partition_changed,\n\t\t\t&global_id_size,\n\t\t\t&local_id_size,\n\t\t\t&number_to_receive,\n\t\t\t&global_ids_to_receive,\n\t\t\t&local_ids_to_receive,\n\t\t\t&sender_processes,\n\t\t\t&number_to_send,\n\t\t\t&global_ids_to_send,\n\t\t\t&local_ids_to_send,\n\t\t\t&receiver_processes\n\t\t\t) != ZOLTAN_OK\n\t\t) {\n\t\t\tif (!this->no_load_balancing) {\n\t\t\t\tif (this->rank == 0) {\n\t\t\t\t\tstd::cerr << "Zoltan_LB_Partition failed" << std::endl;\n\t\t\t\t}\n\t\t\t\tZoltan_Destroy(&this->zoltan);\n\t\t\t\t// TODO: throw an exception instead\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\t#ifdef DEBUG\n\t\t\t// check that processes have the cells they\'re supposed to send\n\t\t\tfor (int i = 0; i < number_to_send; i++) {\n\t\t\t\tif (this->cell_data.count(global_ids_to_send[i]) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cannot send cell " << global_ids_to_send[i]\n\t\t\t\t\t\t<< " to process " << receiver_processes[i]\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// check that cells to be received are on the sending process\n\t\t\tfor (int i = 0; i < number_to_receive; i++) {\n\t\t\t\tif (this->cell_process.at(global_ids_to_receive[i]) != (uint64_t)sender_processes[i]) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cannot receive cell " << global_ids_to_receive[i]\n\t\t\t\t\t\t<< " from process " << sender_processes[i]\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\t\t\t#endif\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\tthis->added_cells.clear();\n\t\tthis->removed_cells.clear();\n\t\tthis->cells_to_receive.clear();\n\t\tthis->cells_to_send.clear();\n\n\t\t/*\n\t\tProcesses and the cells for which data has to be received by this process\n\t\t*/\n\n\t\t// migration from user\n\t\tfor (std::unordered_map<uint64_t, uint64_t>::const_iterator\n\t\t\tpin_request = this->pin_requests.begin();\n\t\t\tpin_request != this->pin_requests.end();\n\t\t\tpin_request++\n\t\t) {\n\t\t\tconst uint64_t current_process_of_cell = this->cell_process.at(pin_request->first);\n\n\t\t\tif (pin_request->second == this->rank\n\t\t\t&& current_process_of_cell != this->rank) {\n\t\t\t\tthis->cells_to_receive[int(current_process_of_cell)].push_back(\n\t\t\t\t\tstd::make_pair(pin_request->first, -1)\n\t\t\t\t);\n\t\t\t\tthis->added_cells.insert(pin_request->first);\n\t\t\t}\n\t\t}\n\n\t\t// migration from Zoltan\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan) {\n\t\t\tfor (int i = 0; i < number_to_receive; i++) {\n\n\t\t\t\t// don\'t send / receive from self\n\t\t\t\tif ((uint64_t)sender_processes[i] == this->rank) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\t// skip user-migrated cells\n\t\t\t\tif (this->pin_requests.count(global_ids_to_receive[i]) > 0) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tthis->cells_to_receive[sender_processes[i]].push_back(\n\t\t\t\t\tstd::make_pair(global_ids_to_receive[i], -1)\n\t\t\t\t);\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->added_cells.count(global_ids_to_receive[i]) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << global_ids_to_receive[i]\n\t\t\t\t\t\t<< " has already been received from process " << this->rank\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\tthis->added_cells.insert(global_ids_to_receive[i]);\n\t\t\t}\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\t// receive cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\tsender = this->cells_to_receive.begin();\n\t\t\tsender != this->cells_to_receive.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tstd::sort(sender->second.begin(), sender->second.end());\n\n\t\t\tfor (unsigned int i = 0; i < sender->second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << sender->second[i].first\n\t\t\t\t\t\t<< " from process " << sender->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tsender->second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\n\t\t/*\n\t\tProcesses and the cells for which data has to be sent by this process\n\t\t*/\n\n\t\t// migration from user\n\t\tfor (std::unordered_map<uint64_t, uint64_t>::const_iterator\n\t\t\tpin_request = this->pin_requests.begin();\n\t\t\tpin_request != this->pin_requests.end();\n\t\t\tpin_request++\n\t\t) {\n\t\t\tconst uint64_t current_process_of_cell = this->cell_process.at(pin_request->first);\n\t\t\tconst uint64_t destination_process = pin_request->second;\n\n\t\t\tif (destination_process != this->rank\n\t\t\t&& current_process_of_cell == this->rank) {\n\t\t\t\tthis->cells_to_send[int(destination_process)].push_back(\n\t\t\t\t\tstd::make_pair(pin_request->first, -1)\n\t\t\t\t);\n\t\t\t\tthis->removed_cells.insert(pin_request->first);\n\t\t\t}\n\t\t}\n\n\t\t// migration from Zoltan\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan) {\n\t\t\tfor (int i = 0; i < number_to_send; i++) {\n\n\t\t\t\t// don\'t send / receive from self\n\t\t\t\tif ((uint64_t) receiver_processes[i] == this->rank) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\t// skip user-migrated cells\n\t\t\t\tif (this->pin_requests.count(global_ids_to_send[i]) > 0) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tthis->cells_to_send[receiver_processes[i]].push_back(\n\t\t\t\t\tstd::make_pair(global_ids_to_send[i], -1)\n\t\t\t\t);\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->removed_cells.count(global_ids_to_send[i]) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << global_ids_to_send[i]\n\t\t\t\t\t\t<< " has already been sent from process " << this->rank\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\tthis->removed_cells.insert(global_ids_to_send[i]);\n\t\t\t}\n\n\t\t\tZoltan_LB_Free_Data(\n\t\t\t\t&global_ids_to_receive,\n\t\t\t\t&local_ids_to_receive,\n\t\t\t\t&sender_processes,\n\t\t\t\t&global_ids_to_send,\n\t\t\t\t&local_ids_to_send,\n\t\t\t\t&receiver_processes\n\t\t\t);\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\t// send cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\treceiver = this->cells_to_send.begin();\n\t\t\treceiver != this->cells_to_send.end();\n\t\t\treceiver++\n\t\t) {\n\t\t\tstd::sort(receiver->second.begin(), receiver->second.end());\n\t\t\tfor (unsigned int i = 0; i < receiver->second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << receiver->second[i].first\n\t\t\t\t\t\t<< " to process " << receiver->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\treceiver->second[i].second = tag;\n\t\t\t}\n\t\t}\n\t}\n\n\n', '\tvoid make_new_partition(const bool use_zoltan)\n\t{\n\t\tthis->update_pin_requests();\n\n\t\tint\n\t\t\tpartition_changed,\n\t\t\tglobal_id_size,\n\t\t\tlocal_id_size,\n\t\t\tnumber_to_receive,\n\t\t\tnumber_to_send,\n\t\t\t*sender_processes,\n\t\t\t*receiver_processes;\n\n\t\tZOLTAN_ID_PTR\n\t\t\tglobal_ids_to_receive,\n\t\t\tlocal_ids_to_receive,\n\t\t\tglobal_ids_to_send,\n\t\t\tlocal_ids_to_send;\n\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan && Zoltan_LB_Balance(\n\t\t\tthis->zoltan,\n\t\t\t&partition_changed,\n\t\t\t&global_id_size,\n\t\t\t&local_id_size,\n\t\t\t&number_to_receive,\n\t\t\t&global_ids_to_receive,\n\t\t\t&local_ids_to_receive,\n\t\t\t&sender_processes,\n\t\t\t&number_to_send,\n\t\t\t&global_ids_to_send,\n\t\t\t&local_ids_to_send,\n\t\t\t&receiver_processes\n\t\t\t) != ZOLTAN_OK\n\t\t) {\n\t\t\tif (!this->no_load_balancing) {\n\t\t\t\tif (this->rank == 0) {\n\t\t\t\t\tstd::cerr << "Zoltan_LB_Partition failed" << std::endl;\n\t\t\t\t}\n\t\t\t\tZoltan_Destroy(&this->zoltan);\n\t\t\t\t// TODO: throw an exception instead\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\t#ifdef DEBUG\n\t\t\t// check that processes have the cells they\'re supposed to send\n\t\t\tfor (int i = 0; i < number_to_send; i++) {\n\t\t\t\tif (this->cell_data.count(global_ids_to_send[i]) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cannot send cell " << global_ids_to_send[i]\n\t\t\t\t\t\t<< " to process " << receiver_processes[i]\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// check that cells to be received are on the sending process\n\t\t\tfor (int i = 0; i < number_to_receive; i++) {\n\t\t\t\tif (this->cell_process.at(global_ids_to_receive[i]) != (uint64_t)sender_processes[i]) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cannot receive cell " << global_ids_to_receive[i]\n\t\t\t\t\t\t<< " from process " << sender_processes[i]\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\t\t\t#endif\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\tthis->added_cells.clear();\n\t\tthis->removed_cells.clear();\n\t\tthis->cells_to_receive.clear();\n\t\tthis->cells_to_send.clear();\n\n\t\t/*\n\t\tProcesses and the cells for which data has to be received by this process\n\t\t*/\n\n\t\t// migration from user\n\t\tfor (std::unordered_map<uint64_t, uint64_t>::const_iterator\n\t\t\tpin_request = this->pin_requests.begin();\n\t\t\tpin_request != this->pin_requests.end();\n\t\t\tpin_request++\n\t\t) {\n\t\t\tconst uint64_t current_process_of_cell = this->cell_process.at(pin_request->first);\n\n\t\t\tif (pin_request->second == this->rank\n\t\t\t&& current_process_of_cell != this->rank) {\n\t\t\t\tthis->cells_to_receive[int(current_process_of_cell)].push_back(\n\t\t\t\t\tstd::make_pair(pin_request->first, -1)\n\t\t\t\t);\n\t\t\t\tthis->added_cells.insert(pin_request->first);\n\t\t\t}\n\t\t}\n\n\t\t// migration from Zoltan\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan) {\n\t\t\tfor (int i = 0; i < number_to_receive; i++) {\n\n\t\t\t\tconst uint64_t cell = global_ids_to_receive[i];\n\t\t\t\tconst bool\n\t\t\t\t\tfrom_self = uint64_t(sender_processes[i]) == this->rank,\n\t\t\t\t\tpinned = this->pin_requests.count(cell) > 0;\n\t\t\t\tif (from_self || pinned) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tthis->cells_to_receive[sender_processes[i]].push_back(\n\t\t\t\t\tstd::make_pair(global_ids_to_receive[i], -1)\n\t\t\t\t);\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->added_cells.count(global_ids_to_receive[i]) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << global_ids_to_receive[i]\n\t\t\t\t\t\t<< " has already been received from process " << this->rank\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\tthis->added_cells.insert(global_ids_to_receive[i]);\n\t\t\t}\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\t// receive cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\tsender = this->cells_to_receive.begin();\n\t\t\tsender != this->cells_to_receive.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tstd::sort(sender->second.begin(), sender->second.end());\n\n\t\t\tfor (unsigned int i = 0; i < sender->second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << sender->second[i].first\n\t\t\t\t\t\t<< " from process " << sender->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tsender->second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\n\t\t/*\n\t\tProcesses and the cells for which data has to be sent by this process\n\t\t*/\n\n\t\t// migration from user\n\t\tfor (std::unordered_map<uint64_t, uint64_t>::const_iterator\n\t\t\tpin_request = this->pin_requests.begin();\n\t\t\tpin_request != this->pin_requests.end();\n\t\t\tpin_request++\n\t\t) {\n\t\t\tconst uint64_t current_process_of_cell = this->cell_process.at(pin_request->first);\n\t\t\tconst uint64_t destination_process = pin_request->second;\n\n\t\t\tif (destination_process != this->rank\n\t\t\t&& current_process_of_cell == this->rank) {\n\t\t\t\tthis->cells_to_send[int(destination_process)].push_back(\n\t\t\t\t\tstd::make_pair(pin_request->first, -1)\n\t\t\t\t);\n\t\t\t\tthis->removed_cells.insert(pin_request->first);\n\t\t\t}\n\t\t}\n\n\t\t// migration from Zoltan\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (use_zoltan) {\n\t\t\tfor (int i = 0; i < number_to_send; i++) {\n\n\t\t\t\t// don\'t send / receive from self\n\t\t\t\tif ((uint64_t) receiver_processes[i] == this->rank) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\t// skip user-migrated cells\n\t\t\t\tif (this->pin_requests.count(global_ids_to_send[i]) > 0) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tthis->cells_to_send[receiver_processes[i]].push_back(\n\t\t\t\t\tstd::make_pair(global_ids_to_send[i], -1)\n\t\t\t\t);\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->removed_cells.count(global_ids_to_send[i]) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << global_ids_to_send[i]\n\t\t\t\t\t\t<< " has already been sent from process " << this->rank\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\tthis->removed_cells.insert(global_ids_to_send[i]);\n\t\t\t}\n\n\t\t\tZoltan_LB_Free_Data(\n\t\t\t\t&global_ids_to_receive,\n\t\t\t\t&local_ids_to_receive,\n\t\t\t\t&sender_processes,\n\t\t\t\t&global_ids_to_send,\n\t\t\t\t&local_ids_to_send,\n\t\t\t\t&receiver_processes\n\t\t\t);\n\t\t}\n\t\t#endif // ifndef DCCRG_NO_LB\n\n\t\t// send cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\treceiver = this->cells_to_send.begin();\n\t\t\treceiver != this->cells_to_send.end();\n\t\t\treceiver++\n\t\t) {\n\t\t\tstd::sort(receiver->second.begin(), receiver->second.end());\n\t\t\tfor (unsigned int i = 0; i < receiver->second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << receiver->second[i].first\n\t\t\t\t\t\t<< " to process " << receiver->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\treceiver->second[i].second = tag;\n\t\t\t}\n\t\t}\n\t}\n\n\n'))
same('p-ex-find', ('\tstd::vector<uint64_t> execute_refines()\n\t{\n\t\tusing std::to_string;\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_remote_neighbor_info()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Remote neighbor info is not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_user_data()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " User data is inconsistent" << std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\t\t#endif\n\n\t\tstd::vector<uint64_t> new_cells;\n\n\t\tthis->remote_neighbors.clear();\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\t\tthis->refined_cell_data.clear();\n\t\tthis->unrefined_cell_data.clear();\n\n\t\t#ifdef DEBUG\n\t\t// check that cells_to_refine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_refine(this->cells_to_refine.begin(), this->cells_to_refine.end());\n\t\tstd::sort(ordered_cells_to_refine.begin(), ordered_cells_to_refine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_refine;\n\t\tAll_Gather()(ordered_cells_to_refine, all_ordered_cells_to_refine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_refine[process].begin(),\n\t\t\t\tall_ordered_cells_to_refine[process].end(),\n\t\t\t\tall_ordered_cells_to_refine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_refine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\n\t\t// check that cells_to_unrefine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_unrefine(this->cells_to_unrefine.begin(), this->cells_to_unrefine.end());\n\t\tstd::sort(ordered_cells_to_unrefine.begin(), ordered_cells_to_unrefine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_unrefine;\n\t\tAll_Gather()(ordered_cells_to_unrefine, all_ordered_cells_to_unrefine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_unrefine[process].begin(),\n\t\t\t\tall_ordered_cells_to_unrefine[process].end(),\n\t\t\t\tall_ordered_cells_to_unrefine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_unrefine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\t\t#endif\n\n\t\t// refines\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->rank == this->cell_process.at(refined)\n\t\t\t&& this->cell_data.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Data for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_of.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_to.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor_to list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst auto process_of_refined = this->cell_process.at(refined);\n\n\t\t\t// move user data of refined cells into refined_cell_data\n\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t// TODO: move data instead of copying\n\t\t\t\tthis->refined_cell_data[refined] = this->cell_data.at(refined);\n\t\t\t\tthis->cell_data.erase(refined);\n\t\t\t}\n\n\t\t\t// add children of refined cells into the grid\n\t\t\tconst auto children = this->mapping.get_all_children(refined);\n\t\t\tif (children[0] == error_cell or children[1] == error_cell) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\n\t\t\tfor (const uint64_t child: children) {\n\t\t\t\tthis->cell_process[child] = process_of_refined;\n\n\t\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t\tthis->cell_data[child];\n\t\t\t\t\tthis->neighbors_of[child];\n\t\t\t\t\tthis->neighbors_to[child];\n\t\t\t\t\tnew_cells.push_back(child);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their pin request status\n\t\t\tif (this->pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->pin_requests[child] = this->pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->pin_requests.erase(refined);\n\t\t\t}\n\t\t\tif (this->new_pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->new_pin_requests[child] = this->new_pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->new_pin_requests.erase(refined);\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their weight\n\t\t\tif (this->rank == process_of_refined\n\t\t\t&& this->cell_weights.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->cell_weights[child] = this->cell_weights.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->cell_weights.erase(refined);\n\t\t\t}\n\t\t}\n\n\t\t// initially only one sibling recorded per\n\t\t// process when unrefining, insert rest now\n\t\tstd::unordered_set<uint64_t> all_to_unrefine;\n\t\tstd::unordered_set<uint64_t> parents_of_unrefined;\n\t\tfor (const uint64_t unrefined: this->cells_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (unrefined != this->get_child(unrefined)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Invalid parent cell" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tparents_of_unrefined.insert(parent_of_unrefined);\n\n\t\t\tconst auto siblings = this->mapping.get_all_children(parent_of_unrefined);\n\n\t\t\t// parent will be owned by owner of first child\n\t\t\tthis->cell_process[parent_of_unrefined] = this->cell_process.at(siblings[0]);\n\n\t\t\t#ifdef DEBUG\n\t\t\tbool unrefined_in_siblings = false;\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tif (sibling == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (sibling != this->get_child(sibling)) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has has children"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.at(sibling) == this->rank\n\t\t\t\t&& this->cell_data.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (unrefined == sibling) {\n\t\t\t\t\tunrefined_in_siblings = true;\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tif (!unrefined_in_siblings) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Cell to unrefine isn\'t its parent\'s child" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tall_to_unrefine.insert(sibling);\n\t\t\t}\n\t\t}\n\n\t\t// unrefines\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst uint64_t process_of_parent = this->cell_process.at(parent_of_unrefined);\n\t\t\tconst uint64_t process_of_unrefined = this->cell_process.at(unrefined);\n\n\t\t\t// remove unrefined cells and their siblings\n\t\t\t// from the grid, but don\'t remove user data yet\n\t\t\tthis->cell_process.erase(unrefined);\n\t\t\tthis->pin_requests.erase(unrefined);\n\t\t\tthis->new_pin_requests.erase(unrefined);\n\t\t\tthis->cell_weights.erase(unrefined);\n\n\t\t\t// don\'t send unrefined cells\' user data to self\n\t\t\tif (this->rank == process_of_unrefined\n\t\t\t&& this->rank == process_of_parent) {\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->cell_data.count(unrefined) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t\t<< " to be unrefined has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\t// TODO move data instead of copying\n\t\t\t\tthis->unrefined_cell_data[unrefined] = this->cell_data.at(unrefined);\n\t\t\t\tthis->cell_data.erase(unrefined);\n\n\t\t\t// send user data of removed cell to the parent\'s process\n\t\t\t} else if (this->rank == process_of_unrefined) {\n\n\t\t\t\tthis->cells_to_send[process_of_parent].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\n\t\t\t// receive user data of removed cell from its process\n\t\t\t} else if (this->rank == process_of_parent) {\n\t\t\t\tthis->cells_to_receive[process_of_unrefined].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\n\t\t// receive cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\tsender = this->cells_to_receive.begin();\n\t\t\tsender != this->cells_to_receive.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tstd::sort(sender->second.begin(), sender->second.end());\n\t\t\t// TODO: merge with identical code in make_new_partition\n\t\t\tfor (unsigned int i = 0; i < sender->second.size(); i++) {\n\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << sender->second[i].first\n\t\t\t\t\t\t<< " from process " << sender->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tsender->second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\t\t// send cells in known order and add message tags\n\t\tfor (auto& receiver: this->cells_to_send) {\n\t\t\tstd::sort(receiver.second.begin(), receiver.second.end());\n\t\t\tfor (unsigned int i = 0; i < receiver.second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << receiver.second[i].first\n\t\t\t\t\t\t<< " to process " << receiver.first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\treceiver.second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\n\t\tthis->start_user_data_transfers(\n\t\t\tthis->unrefined_cell_data,\n\t\t\tthis->cells_to_receive,\n\t\t\tthis->cells_to_send,\n\t\t\t-3\n\t\t);\n\n\t\tthis->wait_user_data_transfer_receives();\n\n\t\t// default construct unrefined cells\' parents\' user data\n\t\tfor (const uint64_t parent: parents_of_unrefined) {\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(parent) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\tif (parent != this->get_child(parent)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " still has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tif (this->cell_process.at(parent) == this->rank) {\n\t\t\t\tthis->cell_data[parent];\n\t\t\t}\n\t\t}\n\n\t\tthis->wait_user_data_transfer_sends();\n\n\t\t// now can remove user data of unrefined cells\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\t\t\tthis->cell_data.erase(unrefined);\n\t\t}\n\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_user_data()) {\n\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t}\n\t\t#endif\n\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\t\t\tthis->cell_process.erase(refined);\n\t\t}\n\t\tthis->cells_to_refine.clear();\n\t\tthis->cells_to_unrefine.clear();\n\n', '\tstd::vector<uint64_t> execute_refines()\n\t{\n\t\tusing std::to_string;\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_remote_neighbor_info()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Remote neighbor info is not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_user_data()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " User data is inconsistent" << std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\t\t#endif\n\n\t\tstd::vector<uint64_t> new_cells;\n\n\t\tthis->remote_neighbors.clear();\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\t\tthis->refined_cell_data.clear();\n\t\tthis->unrefined_cell_data.clear();\n\n\t\t#ifdef DEBUG\n\t\t// check that cells_to_refine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_refine(this->cells_to_refine.begin(), this->cells_to_refine.end());\n\t\tstd::sort(ordered_cells_to_refine.begin(), ordered_cells_to_refine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_refine;\n\t\tAll_Gather()(ordered_cells_to_refine, all_ordered_cells_to_refine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_refine[process].begin(),\n\t\t\t\tall_ordered_cells_to_refine[process].end(),\n\t\t\t\tall_ordered_cells_to_refine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_refine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\n\t\t// check that cells_to_unrefine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_unrefine(this->cells_to_unrefine.begin(), this->cells_to_unrefine.end());\n\t\tstd::sort(ordered_cells_to_unrefine.begin(), ordered_cells_to_unrefine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_unrefine;\n\t\tAll_Gather()(ordered_cells_to_unrefine, all_ordered_cells_to_unrefine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_unrefine[process].begin(),\n\t\t\t\tall_ordered_cells_to_unrefine[process].end(),\n\t\t\t\tall_ordered_cells_to_unrefine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_unrefine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\t\t#endif\n\n\t\t// refines\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->rank == this->cell_process.at(refined)\n\t\t\t&& this->cell_data.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Data for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_of.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_to.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor_to list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst auto process_of_refined = this->cell_process.at(refined);\n\n\t\t\t// move user data of refined cells into refined_cell_data\n\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t// TODO: move data instead of copying\n\t\t\t\tthis->refined_cell_data[refined] = this->cell_data.at(refined);\n\t\t\t\tthis->cell_data.erase(refined);\n\t\t\t}\n\n\t\t\t// add children of refined cells into the grid\n\t\t\tconst auto children = this->mapping.get_all_children(refined);\n\t\t\tif (children[0] == error_cell or children[1] == error_cell) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\n\t\t\tfor (const uint64_t child: children) {\n\t\t\t\tthis->cell_process[child] = process_of_refined;\n\n\t\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t\tthis->cell_data[child];\n\t\t\t\t\tthis->neighbors_of[child];\n\t\t\t\t\tthis->neighbors_to[child];\n\t\t\t\t\tnew_cells.push_back(child);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their pin request status\n\t\t\tconst auto pin = this->pin_requests.find(refined);\n\t\t\tif (pin != this->pin_requests.end()) {\n\t\t\t\tconst uint64_t target = pin->second;\n\t\t\t\tthis->pin_requests.erase(refined);\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->pin_requests[child] = target;\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tif (this->new_pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->new_pin_requests[child] = this->new_pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->new_pin_requests.erase(refined);\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their weight\n\t\t\tif (this->rank == process_of_refined\n\t\t\t&& this->cell_weights.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->cell_weights[child] = this->cell_weights.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->cell_weights.erase(refined);\n\t\t\t}\n\t\t}\n\n\t\t// initially only one sibling recorded per\n\t\t// process when unrefining, insert rest now\n\t\tstd::unordered_set<uint64_t> all_to_unrefine;\n\t\tstd::unordered_set<uint64_t> parents_of_unrefined;\n\t\tfor (const uint64_t unrefined: this->cells_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (unrefined != this->get_child(unrefined)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Invalid parent cell" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tparents_of_unrefined.insert(parent_of_unrefined);\n\n\t\t\tconst auto siblings = this->mapping.get_all_children(parent_of_unrefined);\n\n\t\t\t// parent will be owned by owner of first child\n\t\t\tthis->cell_process[parent_of_unrefined] = this->cell_process.at(siblings[0]);\n\n\t\t\t#ifdef DEBUG\n\t\t\tbool unrefined_in_siblings = false;\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tif (sibling == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (sibling != this->get_child(sibling)) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has has children"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.at(sibling) == this->rank\n\t\t\t\t&& this->cell_data.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (unrefined == sibling) {\n\t\t\t\t\tunrefined_in_siblings = true;\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tif (!unrefined_in_siblings) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Cell to unrefine isn\'t its parent\'s child" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tall_to_unrefine.insert(sibling);\n\t\t\t}\n\t\t}\n\n\t\t// unrefines\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst uint64_t process_of_parent = this->cell_process.at(parent_of_unrefined);\n\t\t\tconst uint64_t process_of_unrefined = this->cell_process.at(unrefined);\n\n\t\t\t// remove unrefined cells and their siblings\n\t\t\t// from the grid, but don\'t remove user data yet\n\t\t\tthis->cell_process.erase(unrefined);\n\t\t\tthis->pin_requests.erase(unrefined);\n\t\t\tthis->new_pin_requests.erase(unrefined);\n\t\t\tthis->cell_weights.erase(unrefined);\n\n\t\t\t// don\'t send unrefined cells\' user data to self\n\t\t\tif (this->rank == process_of_unrefined\n\t\t\t&& this->rank == process_of_parent) {\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->cell_data.count(unrefined) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t\t<< " to be unrefined has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\t// TODO move data instead of copying\n\t\t\t\tthis->unrefined_cell_data[unrefined] = this->cell_data.at(unrefined);\n\t\t\t\tthis->cell_data.erase(unrefined);\n\n\t\t\t// send user data of removed cell to the parent\'s process\n\t\t\t} else if (this->rank == process_of_unrefined) {\n\n\t\t\t\tthis->cells_to_send[process_of_parent].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\n\t\t\t// receive user data of removed cell from its process\n\t\t\t} else if (this->rank == process_of_parent) {\n\t\t\t\tthis->cells_to_receive[process_of_unrefined].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\n\t\t// receive cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\tsender = this->cells_to_receive.begin();\n\t\t\tsender != this->cells_to_receive.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tstd::sort(sender->second.begin(), sender->second.end());\n\t\t\t// TODO: merge with identical code in make_new_partition\n\t\t\tfor (unsigned int i = 0; i < sender->second.size(); i++) {\n\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << sender->second[i].first\n\t\t\t\t\t\t<< " from process " << sender->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tsender->second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\t\t// send cells in known order and add message tags\n\t\tfor (auto& receiver: this->cells_to_send) {\n\t\t\tstd::sort(receiver.second.begin(), receiver.second.end());\n\t\t\tfor (unsigned int i = 0; i < receiver.second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << receiver.second[i].first\n\t\t\t\t\t\t<< " to process " << receiver.first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\treceiver.second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\n\t\tthis->start_user_data_transfers(\n\t\t\tthis->unrefined_cell_data,\n\t\t\tthis->cells_to_receive,\n\t\t\tthis->cells_to_send,\n\t\t\t-3\n\t\t);\n\n\t\tthis->wait_user_data_transfer_receives();\n\n\t\t// default construct unrefined cells\' parents\' user data\n\t\tfor (const uint64_t parent: parents_of_unrefined) {\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(parent) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\tif (parent != this->get_child(parent)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " still has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tif (this->cell_process.at(parent) == this->rank) {\n\t\t\t\tthis->cell_data[parent];\n\t\t\t}\n\t\t}\n\n\t\tthis->wait_user_data_transfer_sends();\n\n\t\t// now can remove user data of unrefined cells\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\t\t\tthis->cell_data.erase(unrefined);\n\t\t}\n\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_user_data()) {\n\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t}\n\t\t#endif\n\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\t\t\tthis->cell_process.erase(refined);\n\t\t}\n\t\tthis->cells_to_refine.clear();\n\t\tthis->cells_to_unrefine.clear();\n\n'))
same('p-ex-lambda', ('\tstd::vector<uint64_t> execute_refines()\n\t{\n\t\tusing std::to_string;\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_remote_neighbor_info()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Remote neighbor info is not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_user_data()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " User data is inconsistent" << std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\t\t#endif\n\n\t\tstd::vector<uint64_t> new_cells;\n\n\t\tthis->remote_neighbors.clear();\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\t\tthis->refined_cell_data.clear();\n\t\tthis->unrefined_cell_data.clear();\n\n\t\t#ifdef DEBUG\n\t\t// check that cells_to_refine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_refine(this->cells_to_refine.begin(), this->cells_to_refine.end());\n\t\tstd::sort(ordered_cells_to_refine.begin(), ordered_cells_to_refine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_refine;\n\t\tAll_Gather()(ordered_cells_to_refine, all_ordered_cells_to_refine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_refine[process].begin(),\n\t\t\t\tall_ordered_cells_to_refine[process].end(),\n\t\t\t\tall_ordered_cells_to_refine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_refine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\n\t\t// check that cells_to_unrefine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_unrefine(this->cells_to_unrefine.begin(), this->cells_to_unrefine.end());\n\t\tstd::sort(ordered_cells_to_unrefine.begin(), ordered_cells_to_unrefine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_unrefine;\n\t\tAll_Gather()(ordered_cells_to_unrefine, all_ordered_cells_to_unrefine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_unrefine[process].begin(),\n\t\t\t\tall_ordered_cells_to_unrefine[process].end(),\n\t\t\t\tall_ordered_cells_to_unrefine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_unrefine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\t\t#endif\n\n\t\t// refines\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->rank == this->cell_process.at(refined)\n\t\t\t&& this->cell_data.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Data for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_of.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_to.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor_to list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst auto process_of_refined = this->cell_process.at(refined);\n\n\t\t\t// move user data of refined cells into refined_cell_data\n\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t// TODO: move data instead of copying\n\t\t\t\tthis->refined_cell_data[refined] = this->cell_data.at(refined);\n\t\t\t\tthis->cell_data.erase(refined);\n\t\t\t}\n\n\t\t\t// add children of refined cells into the grid\n\t\t\tconst auto children = this->mapping.get_all_children(refined);\n\t\t\tif (children[0] == error_cell or children[1] == error_cell) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\n\t\t\tfor (const uint64_t child: children) {\n\t\t\t\tthis->cell_process[child] = process_of_refined;\n\n\t\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t\tthis->cell_data[child];\n\t\t\t\t\tthis->neighbors_of[child];\n\t\t\t\t\tthis->neighbors_to[child];\n\t\t\t\t\tnew_cells.push_back(child);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their pin request status\n\t\t\tif (this->pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->pin_requests[child] = this->pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->pin_requests.erase(refined);\n\t\t\t}\n\t\t\tif (this->new_pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->new_pin_requests[child] = this->new_pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->new_pin_requests.erase(refined);\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their weight\n\t\t\tif (this->rank == process_of_refined\n\t\t\t&& this->cell_weights.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->cell_weights[child] = this->cell_weights.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->cell_weights.erase(refined);\n\t\t\t}\n\t\t}\n\n\t\t// initially only one sibling recorded per\n\t\t// process when unrefining, insert rest now\n\t\tstd::unordered_set<uint64_t> all_to_unrefine;\n\t\tstd::unordered_set<uint64_t> parents_of_unrefined;\n\t\tfor (const uint64_t unrefined: this->cells_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (unrefined != this->get_child(unrefined)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Invalid parent cell" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tparents_of_unrefined.insert(parent_of_unrefined);\n\n\t\t\tconst auto siblings = this->mapping.get_all_children(parent_of_unrefined);\n\n\t\t\t// parent will be owned by owner of first child\n\t\t\tthis->cell_process[parent_of_unrefined] = this->cell_process.at(siblings[0]);\n\n\t\t\t#ifdef DEBUG\n\t\t\tbool unrefined_in_siblings = false;\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tif (sibling == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (sibling != this->get_child(sibling)) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has has children"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.at(sibling) == this->rank\n\t\t\t\t&& this->cell_data.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (unrefined == sibling) {\n\t\t\t\t\tunrefined_in_siblings = true;\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tif (!unrefined_in_siblings) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Cell to unrefine isn\'t its parent\'s child" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tall_to_unrefine.insert(sibling);\n\t\t\t}\n\t\t}\n\n\t\t// unrefines\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst uint64_t process_of_parent = this->cell_process.at(parent_of_unrefined);\n\t\t\tconst uint64_t process_of_unrefined = this->cell_process.at(unrefined);\n\n\t\t\t// remove unrefined cells and their siblings\n\t\t\t// from the grid, but don\'t remove user data yet\n\t\t\tthis->cell_process.erase(unrefined);\n\t\t\tthis->pin_requests.erase(unrefined);\n\t\t\tthis->new_pin_requests.erase(unrefined);\n\t\t\tthis->cell_weights.erase(unrefined);\n\n\t\t\t// don\'t send unrefined cells\' user data to self\n\t\t\tif (this->rank == process_of_unrefined\n\t\t\t&& this->rank == process_of_parent) {\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->cell_data.count(unrefined) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t\t<< " to be unrefined has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\t// TODO move data instead of copying\n\t\t\t\tthis->unrefined_cell_data[unrefined] = this->cell_data.at(unrefined);\n\t\t\t\tthis->cell_data.erase(unrefined);\n\n\t\t\t// send user data of removed cell to the parent\'s process\n\t\t\t} else if (this->rank == process_of_unrefined) {\n\n\t\t\t\tthis->cells_to_send[process_of_parent].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\n\t\t\t// receive user data of removed cell from its process\n\t\t\t} else if (this->rank == process_of_parent) {\n\t\t\t\tthis->cells_to_receive[process_of_unrefined].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\n\t\t// receive cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\tsender = this->cells_to_receive.begin();\n\t\t\tsender != this->cells_to_receive.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tstd::sort(sender->second.begin(), sender->second.end());\n\t\t\t// TODO: merge with identical code in make_new_partition\n\t\t\tfor (unsigned int i = 0; i < sender->second.size(); i++) {\n\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << sender->second[i].first\n\t\t\t\t\t\t<< " from process " << sender->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tsender->second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\t\t// send cells in known order and add message tags\n\t\tfor (auto& receiver: this->cells_to_send) {\n\t\t\tstd::sort(receiver.second.begin(), receiver.second.end());\n\t\t\tfor (unsigned int i = 0; i < receiver.second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << receiver.second[i].first\n\t\t\t\t\t\t<< " to process " << receiver.first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\treceiver.second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\n\t\tthis->start_user_data_transfers(\n\t\t\tthis->unrefined_cell_data,\n\t\t\tthis->cells_to_receive,\n\t\t\tthis->cells_to_send,\n\t\t\t-3\n\t\t);\n\n\t\tthis->wait_user_data_transfer_receives();\n\n\t\t// default construct unrefined cells\' parents\' user data\n\t\tfor (const uint64_t parent: parents_of_unrefined) {\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(parent) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\tif (parent != this->get_child(parent)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " still has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tif (this->cell_process.at(parent) == this->rank) {\n\t\t\t\tthis->cell_data[parent];\n\t\t\t}\n\t\t}\n\n\t\tthis->wait_user_data_transfer_sends();\n\n\t\t// now can remove user data of unrefined cells\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\t\t\tthis->cell_data.erase(unrefined);\n\t\t}\n\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_user_data()) {\n\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t}\n\t\t#endif\n\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\t\t\tthis->cell_process.erase(refined);\n\t\t}\n\t\tthis->cells_to_refine.clear();\n\t\tthis->cells_to_unrefine.clear();\n\n', '\tstd::vector<uint64_t> execute_refines()\n\t{\n\t\tusing std::to_string;\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_remote_neighbor_info()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Remote neighbor info is not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_user_data()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " User data is inconsistent" << std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\t\t#endif\n\n\t\tstd::vector<uint64_t> new_cells;\n\n\t\tthis->remote_neighbors.clear();\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\t\tthis->refined_cell_data.clear();\n\t\tthis->unrefined_cell_data.clear();\n\n\t\t#ifdef DEBUG\n\t\t// check that cells_to_refine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_refine(this->cells_to_refine.begin(), this->cells_to_refine.end());\n\t\tstd::sort(ordered_cells_to_refine.begin(), ordered_cells_to_refine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_refine;\n\t\tAll_Gather()(ordered_cells_to_refine, all_ordered_cells_to_refine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_refine[process].begin(),\n\t\t\t\tall_ordered_cells_to_refine[process].end(),\n\t\t\t\tall_ordered_cells_to_refine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_refine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\n\t\t// check that cells_to_unrefine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_unrefine(this->cells_to_unrefine.begin(), this->cells_to_unrefine.end());\n\t\tstd::sort(ordered_cells_to_unrefine.begin(), ordered_cells_to_unrefine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_unrefine;\n\t\tAll_Gather()(ordered_cells_to_unrefine, all_ordered_cells_to_unrefine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_unrefine[process].begin(),\n\t\t\t\tall_ordered_cells_to_unrefine[process].end(),\n\t\t\t\tall_ordered_cells_to_unrefine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_unrefine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\t\t#endif\n\n\t\t// refines\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->rank == this->cell_process.at(refined)\n\t\t\t&& this->cell_data.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Data for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_of.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_to.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor_to list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst auto process_of_refined = this->cell_process.at(refined);\n\n\t\t\t// move user data of refined cells into refined_cell_data\n\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t// TODO: move data instead of copying\n\t\t\t\tthis->refined_cell_data[refined] = this->cell_data.at(refined);\n\t\t\t\tthis->cell_data.erase(refined);\n\t\t\t}\n\n\t\t\t// add children of refined cells into the grid\n\t\t\tconst auto children = this->mapping.get_all_children(refined);\n\t\t\tif (children[0] == error_cell or children[1] == error_cell) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\n\t\t\tfor (const uint64_t child: children) {\n\t\t\t\tthis->cell_process[child] = process_of_refined;\n\n\t\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t\tthis->cell_data[child];\n\t\t\t\t\tthis->neighbors_of[child];\n\t\t\t\t\tthis->neighbors_to[child];\n\t\t\t\t\tnew_cells.push_back(child);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their pin request status\n\t\t\tconst auto inherit = [&](std::unordered_map<uint64_t, uint64_t>& requests) {\n\t\t\t\tif (requests.count(refined) == 0) {\n\t\t\t\t\treturn;\n\t\t\t\t}\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\trequests[child] = requests.at(refined);\n\t\t\t\t}\n\t\t\t\trequests.erase(refined);\n\t\t\t};\n\t\t\tinherit(this->pin_requests);\n\t\t\tinherit(this->new_pin_requests);\n\n\t\t\t// children of refined cells inherit their weight\n\t\t\tif (this->rank == process_of_refined\n\t\t\t&& this->cell_weights.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->cell_weights[child] = this->cell_weights.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->cell_weights.erase(refined);\n\t\t\t}\n\t\t}\n\n\t\t// initially only one sibling recorded per\n\t\t// process when unrefining, insert rest now\n\t\tstd::unordered_set<uint64_t> all_to_unrefine;\n\t\tstd::unordered_set<uint64_t> parents_of_unrefined;\n\t\tfor (const uint64_t unrefined: this->cells_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (unrefined != this->get_child(unrefined)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Invalid parent cell" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tparents_of_unrefined.insert(parent_of_unrefined);\n\n\t\t\tconst auto siblings = this->mapping.get_all_children(parent_of_unrefined);\n\n\t\t\t// parent will be owned by owner of first child\n\t\t\tthis->cell_process[parent_of_unrefined] = this->cell_process.at(siblings[0]);\n\n\t\t\t#ifdef DEBUG\n\t\t\tbool unrefined_in_siblings = false;\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tif (sibling == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (sibling != this->get_child(sibling)) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has has children"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.at(sibling) == this->rank\n\t\t\t\t&& this->cell_data.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (unrefined == sibling) {\n\t\t\t\t\tunrefined_in_siblings = true;\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tif (!unrefined_in_siblings) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Cell to unrefine isn\'t its parent\'s child" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tall_to_unrefine.insert(sibling);\n\t\t\t}\n\t\t}\n\n\t\t// unrefines\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst uint64_t process_of_parent = this->cell_process.at(parent_of_unrefined);\n\t\t\tconst uint64_t process_of_unrefined = this->cell_process.at(unrefined);\n\n\t\t\t// remove unrefined cells and their siblings\n\t\t\t// from the grid, but don\'t remove user data yet\n\t\t\tthis->cell_process.erase(unrefined);\n\t\t\tthis->pin_requests.erase(unrefined);\n\t\t\tthis->new_pin_requests.erase(unrefined);\n\t\t\tthis->cell_weights.erase(unrefined);\n\n\t\t\t// don\'t send unrefined cells\' user data to self\n\t\t\tif (this->rank == process_of_unrefined\n\t\t\t&& this->rank == process_of_parent) {\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->cell_data.count(unrefined) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t\t<< " to be unrefined has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\t// TODO move data instead of copying\n\t\t\t\tthis->unrefined_cell_data[unrefined] = this->cell_data.at(unrefined);\n\t\t\t\tthis->cell_data.erase(unrefined);\n\n\t\t\t// send user data of removed cell to the parent\'s process\n\t\t\t} else if (this->rank == process_of_unrefined) {\n\n\t\t\t\tthis->cells_to_send[process_of_parent].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\n\t\t\t// receive user data of removed cell from its process\n\t\t\t} else if (this->rank == process_of_parent) {\n\t\t\t\tthis->cells_to_receive[process_of_unrefined].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\n\t\t// receive cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\tsender = this->cells_to_receive.begin();\n\t\t\tsender != this->cells_to_receive.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tstd::sort(sender->second.begin(), sender->second.end());\n\t\t\t// TODO: merge with identical code in make_new_partition\n\t\t\tfor (unsigned int i = 0; i < sender->second.size(); i++) {\n\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << sender->second[i].first\n\t\t\t\t\t\t<< " from process " << sender->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tsender->second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\t\t// send cells in known order and add message tags\n\t\tfor (auto& receiver: this->cells_to_send) {\n\t\t\tstd::sort(receiver.second.begin(), receiver.second.end());\n\t\t\tfor (unsigned int i = 0; i < receiver.second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << receiver.second[i].first\n\t\t\t\t\t\t<< " to process " << receiver.first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\treceiver.second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\n\t\tthis->start_user_data_transfers(\n\t\t\tthis->unrefined_cell_data,\n\t\t\tthis->cells_to_receive,\n\t\t\tthis->cells_to_send,\n\t\t\t-3\n\t\t);\n\n\t\tthis->wait_user_data_transfer_receives();\n\n\t\t// default construct unrefined cells\' parents\' user data\n\t\tfor (const uint64_t parent: parents_of_unrefined) {\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(parent) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\tif (parent != this->get_child(parent)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " still has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tif (this->cell_process.at(parent) == this->rank) {\n\t\t\t\tthis->cell_data[parent];\n\t\t\t}\n\t\t}\n\n\t\tthis->wait_user_data_transfer_sends();\n\n\t\t// now can remove user data of unrefined cells\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\t\t\tthis->cell_data.erase(unrefined);\n\t\t}\n\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_user_data()) {\n\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t}\n\t\t#endif\n\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\t\t\tthis->cell_process.erase(refined);\n\t\t}\n\t\tthis->cells_to_refine.clear();\n\t\tthis->cells_to_unrefine.clear();\n\n'))
same('p-ex-local', ('\tstd::vector<uint64_t> execute_refines()\n\t{\n\t\tusing std::to_string;\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_remote_neighbor_info()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Remote neighbor info is not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_user_data()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " User data is inconsistent" << std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\t\t#endif\n\n\t\tstd::vector<uint64_t> new_cells;\n\n\t\tthis->remote_neighbors.clear();\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\t\tthis->refined_cell_data.clear();\n\t\tthis->unrefined_cell_data.clear();\n\n\t\t#ifdef DEBUG\n\t\t// check that cells_to_refine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_refine(this->cells_to_refine.begin(), this->cells_to_refine.end());\n\t\tstd::sort(ordered_cells_to_refine.begin(), ordered_cells_to_refine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_refine;\n\t\tAll_Gather()(ordered_cells_to_refine, all_ordered_cells_to_refine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_refine[process].begin(),\n\t\t\t\tall_ordered_cells_to_refine[process].end(),\n\t\t\t\tall_ordered_cells_to_refine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_refine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\n\t\t// check that cells_to_unrefine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_unrefine(this->cells_to_unrefine.begin(), this->cells_to_unrefine.end());\n\t\tstd::sort(ordered_cells_to_unrefine.begin(), ordered_cells_to_unrefine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_unrefine;\n\t\tAll_Gather()(ordered_cells_to_unrefine, all_ordered_cells_to_unrefine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_unrefine[process].begin(),\n\t\t\t\tall_ordered_cells_to_unrefine[process].end(),\n\t\t\t\tall_ordered_cells_to_unrefine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_unrefine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\t\t#endif\n\n\t\t// refines\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->rank == this->cell_process.at(refined)\n\t\t\t&& this->cell_data.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Data for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_of.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_to.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor_to list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst auto process_of_refined = this->cell_process.at(refined);\n\n\t\t\t// move user data of refined cells into refined_cell_data\n\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t// TODO: move data instead of copying\n\t\t\t\tthis->refined_cell_data[refined] = this->cell_data.at(refined);\n\t\t\t\tthis->cell_data.erase(refined);\n\t\t\t}\n\n\t\t\t// add children of refined cells into the grid\n\t\t\tconst auto children = this->mapping.get_all_children(refined);\n\t\t\tif (children[0] == error_cell or children[1] == error_cell) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\n\t\t\tfor (const uint64_t child: children) {\n\t\t\t\tthis->cell_process[child] = process_of_refined;\n\n\t\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t\tthis->cell_data[child];\n\t\t\t\t\tthis->neighbors_of[child];\n\t\t\t\t\tthis->neighbors_to[child];\n\t\t\t\t\tnew_cells.push_back(child);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their pin request status\n\t\t\tif (this->pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->pin_requests[child] = this->pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->pin_requests.erase(refined);\n\t\t\t}\n\t\t\tif (this->new_pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->new_pin_requests[child] = this->new_pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->new_pin_requests.erase(refined);\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their weight\n\t\t\tif (this->rank == process_of_refined\n\t\t\t&& this->cell_weights.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->cell_weights[child] = this->cell_weights.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->cell_weights.erase(refined);\n\t\t\t}\n\t\t}\n\n\t\t// initially only one sibling recorded per\n\t\t// process when unrefining, insert rest now\n\t\tstd::unordered_set<uint64_t> all_to_unrefine;\n\t\tstd::unordered_set<uint64_t> parents_of_unrefined;\n\t\tfor (const uint64_t unrefined: this->cells_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (unrefined != this->get_child(unrefined)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Invalid parent cell" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tparents_of_unrefined.insert(parent_of_unrefined);\n\n\t\t\tconst auto siblings = this->mapping.get_all_children(parent_of_unrefined);\n\n\t\t\t// parent will be owned by owner of first child\n\t\t\tthis->cell_process[parent_of_unrefined] = this->cell_process.at(siblings[0]);\n\n\t\t\t#ifdef DEBUG\n\t\t\tbool unrefined_in_siblings = false;\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tif (sibling == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (sibling != this->get_child(sibling)) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has has children"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.at(sibling) == this->rank\n\t\t\t\t&& this->cell_data.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (unrefined == sibling) {\n\t\t\t\t\tunrefined_in_siblings = true;\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tif (!unrefined_in_siblings) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Cell to unrefine isn\'t its parent\'s child" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tall_to_unrefine.insert(sibling);\n\t\t\t}\n\t\t}\n\n\t\t// unrefines\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst uint64_t process_of_parent = this->cell_process.at(parent_of_unrefined);\n\t\t\tconst uint64_t process_of_unrefined = this->cell_process.at(unrefined);\n\n\t\t\t// remove unrefined cells and their siblings\n\t\t\t// from the grid, but don\'t remove user data yet\n\t\t\tthis->cell_process.erase(unrefined);\n\t\t\tthis->pin_requests.erase(unrefined);\n\t\t\tthis->new_pin_requests.erase(unrefined);\n\t\t\tthis->cell_weights.erase(unrefined);\n\n\t\t\t// don\'t send unrefined cells\' user data to self\n\t\t\tif (this->rank == process_of_unrefined\n\t\t\t&& this->rank == process_of_parent) {\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->cell_data.count(unrefined) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t\t<< " to be unrefined has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\t// TODO move data instead of copying\n\t\t\t\tthis->unrefined_cell_data[unrefined] = this->cell_data.at(unrefined);\n\t\t\t\tthis->cell_data.erase(unrefined);\n\n\t\t\t// send user data of removed cell to the parent\'s process\n\t\t\t} else if (this->rank == process_of_unrefined) {\n\n\t\t\t\tthis->cells_to_send[process_of_parent].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\n\t\t\t// receive user data of removed cell from its process\n\t\t\t} else if (this->rank == process_of_parent) {\n\t\t\t\tthis->cells_to_receive[process_of_unrefined].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\n\t\t// receive cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\tsender = this->cells_to_receive.begin();\n\t\t\tsender != this->cells_to_receive.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tstd::sort(sender->second.begin(), sender->second.end());\n\t\t\t// TODO: merge with identical code in make_new_partition\n\t\t\tfor (unsigned int i = 0; i < sender->second.size(); i++) {\n\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << sender->second[i].first\n\t\t\t\t\t\t<< " from process " << sender->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tsender->second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\t\t// send cells in known order and add message tags\n\t\tfor (auto& receiver: this->cells_to_send) {\n\t\t\tstd::sort(receiver.second.begin(), receiver.second.end());\n\t\t\tfor (unsigned int i = 0; i < receiver.second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << receiver.second[i].first\n\t\t\t\t\t\t<< " to process " << receiver.first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\treceiver.second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\n\t\tthis->start_user_data_transfers(\n\t\t\tthis->unrefined_cell_data,\n\t\t\tthis->cells_to_receive,\n\t\t\tthis->cells_to_send,\n\t\t\t-3\n\t\t);\n\n\t\tthis->wait_user_data_transfer_receives();\n\n\t\t// default construct unrefined cells\' parents\' user data\n\t\tfor (const uint64_t parent: parents_of_unrefined) {\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(parent) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\tif (parent != this->get_child(parent)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " still has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tif (this->cell_process.at(parent) == this->rank) {\n\t\t\t\tthis->cell_data[parent];\n\t\t\t}\n\t\t}\n\n\t\tthis->wait_user_data_transfer_sends();\n\n\t\t// now can remove user data of unrefined cells\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\t\t\tthis->cell_data.erase(unrefined);\n\t\t}\n\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_user_data()) {\n\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t}\n\t\t#endif\n\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\t\t\tthis->cell_process.erase(refined);\n\t\t}\n\t\tthis->cells_to_refine.clear();\n\t\tthis->cells_to_unrefine.clear();\n\n', '\tstd::vector<uint64_t> execute_refines()\n\t{\n\t\tusing std::to_string;\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_remote_neighbor_info()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Remote neighbor info is not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_user_data()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " User data is inconsistent" << std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\t\t#endif\n\n\t\tstd::vector<uint64_t> new_cells;\n\n\t\tthis->remote_neighbors.clear();\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\t\tthis->refined_cell_data.clear();\n\t\tthis->unrefined_cell_data.clear();\n\n\t\t#ifdef DEBUG\n\t\t// check that cells_to_refine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_refine(this->cells_to_refine.begin(), this->cells_to_refine.end());\n\t\tstd::sort(ordered_cells_to_refine.begin(), ordered_cells_to_refine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_refine;\n\t\tAll_Gather()(ordered_cells_to_refine, all_ordered_cells_to_refine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_refine[process].begin(),\n\t\t\t\tall_ordered_cells_to_refine[process].end(),\n\t\t\t\tall_ordered_cells_to_refine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_refine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\n\t\t// check that cells_to_unrefine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_unrefine(this->cells_to_unrefine.begin(), this->cells_to_unrefine.end());\n\t\tstd::sort(ordered_cells_to_unrefine.begin(), ordered_cells_to_unrefine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_unrefine;\n\t\tAll_Gather()(ordered_cells_to_unrefine, all_ordered_cells_to_unrefine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_unrefine[process].begin(),\n\t\t\t\tall_ordered_cells_to_unrefine[process].end(),\n\t\t\t\tall_ordered_cells_to_unrefine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_unrefine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\t\t#endif\n\n\t\t// refines\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->rank == this->cell_process.at(refined)\n\t\t\t&& this->cell_data.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Data for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_of.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_to.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor_to list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst auto process_of_refined = this->cell_process.at(refined);\n\n\t\t\tconst bool is_local = process_of_refined == this->rank;\n\t\t\tif (is_local) {\n\t\t\t\t// TODO: move data instead of copying\n\t\t\t\tthis->refined_cell_data[refined] = std::move(this->cell_data.at(refined));\n\t\t\t\tthis->cell_data.erase(refined);\n\t\t\t}\n\n\t\t\t// add children of refined cells into the grid\n\t\t\tconst auto children = this->mapping.get_all_children(refined);\n\t\t\tif (children[0] == error_cell or children[1] == error_cell) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\n\t\t\tfor (const uint64_t child: children) {\n\t\t\t\tthis->cell_process[child] = process_of_refined;\n\n\t\t\t\tif (not is_local) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\t{\n\t\t\t\t\tthis->cell_data[child];\n\t\t\t\t\tthis->neighbors_of[child];\n\t\t\t\t\tthis->neighbors_to[child];\n\t\t\t\t\tnew_cells.push_back(child);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their pin request status\n\t\t\tif (this->pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->pin_requests[child] = this->pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->pin_requests.erase(refined);\n\t\t\t}\n\t\t\tif (this->new_pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->new_pin_requests[child] = this->new_pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->new_pin_requests.erase(refined);\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their weight\n\t\t\tif (is_local and this->cell_weights.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->cell_weights[child] = this->cell_weights.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->cell_weights.erase(refined);\n\t\t\t}\n\t\t}\n\n\t\t// initially only one sibling recorded per\n\t\t// process when unrefining, insert rest now\n\t\tstd::unordered_set<uint64_t> all_to_unrefine;\n\t\tstd::unordered_set<uint64_t> parents_of_unrefined;\n\t\tfor (const uint64_t unrefined: this->cells_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (unrefined != this->get_child(unrefined)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Invalid parent cell" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tparents_of_unrefined.insert(parent_of_unrefined);\n\n\t\t\tconst auto siblings = this->mapping.get_all_children(parent_of_unrefined);\n\n\t\t\t// parent will be owned by owner of first child\n\t\t\tthis->cell_process[parent_of_unrefined] = this->cell_process.at(siblings[0]);\n\n\t\t\t#ifdef DEBUG\n\t\t\tbool unrefined_in_siblings = false;\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tif (sibling == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (sibling != this->get_child(sibling)) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has has children"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.at(sibling) == this->rank\n\t\t\t\t&& this->cell_data.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (unrefined == sibling) {\n\t\t\t\t\tunrefined_in_siblings = true;\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tif (!unrefined_in_siblings) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Cell to unrefine isn\'t its parent\'s child" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tall_to_unrefine.insert(sibling);\n\t\t\t}\n\t\t}\n\n\t\t// unrefines\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst uint64_t process_of_parent = this->cell_process.at(parent_of_unrefined);\n\t\t\tconst uint64_t process_of_unrefined = this->cell_process.at(unrefined);\n\n\t\t\t// remove unrefined cells and their siblings\n\t\t\t// from the grid, but don\'t remove user data yet\n\t\t\tthis->cell_process.erase(unrefined);\n\t\t\tthis->pin_requests.erase(unrefined);\n\t\t\tthis->new_pin_requests.erase(unrefined);\n\t\t\tthis->cell_weights.erase(unrefined);\n\n\t\t\t// don\'t send unrefined cells\' user data to self\n\t\t\tif (this->rank == process_of_unrefined\n\t\t\t&& this->rank == process_of_parent) {\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->cell_data.count(unrefined) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t\t<< " to be unrefined has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\t// TODO move data instead of copying\n\t\t\t\tthis->unrefined_cell_data[unrefined] = this->cell_data.at(unrefined);\n\t\t\t\tthis->cell_data.erase(unrefined);\n\n\t\t\t// send user data of removed cell to the parent\'s process\n\t\t\t} else if (this->rank == process_of_unrefined) {\n\n\t\t\t\tthis->cells_to_send[process_of_parent].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\n\t\t\t// receive user data of removed cell from its process\n\t\t\t} else if (this->rank == process_of_parent) {\n\t\t\t\tthis->cells_to_receive[process_of_unrefined].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\n\t\t// receive cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\tsender = this->cells_to_receive.begin();\n\t\t\tsender != this->cells_to_receive.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tstd::sort(sender->second.begin(), sender->second.end());\n\t\t\t// TODO: merge with identical code in make_new_partition\n\t\t\tfor (unsigned int i = 0; i < sender->second.size(); i++) {\n\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << sender->second[i].first\n\t\t\t\t\t\t<< " from process " << sender->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tsender->second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\t\t// send cells in known order and add message tags\n\t\tfor (auto& receiver: this->cells_to_send) {\n\t\t\tstd::sort(receiver.second.begin(), receiver.second.end());\n\t\t\tfor (unsigned int i = 0; i < receiver.second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << receiver.second[i].first\n\t\t\t\t\t\t<< " to process " << receiver.first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\treceiver.second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\n\t\tthis->start_user_data_transfers(\n\t\t\tthis->unrefined_cell_data,\n\t\t\tthis->cells_to_receive,\n\t\t\tthis->cells_to_send,\n\t\t\t-3\n\t\t);\n\n\t\tthis->wait_user_data_transfer_receives();\n\n\t\t// default construct unrefined cells\' parents\' user data\n\t\tfor (const uint64_t parent: parents_of_unrefined) {\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(parent) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\tif (parent != this->get_child(parent)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " still has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tif (this->cell_process.at(parent) == this->rank) {\n\t\t\t\tthis->cell_data[parent];\n\t\t\t}\n\t\t}\n\n\t\tthis->wait_user_data_transfer_sends();\n\n\t\t// now can remove user data of unrefined cells\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\t\t\tthis->cell_data.erase(unrefined);\n\t\t}\n\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_user_data()) {\n\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t}\n\t\t#endif\n\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\t\t\tthis->cell_process.erase(refined);\n\t\t}\n\t\tthis->cells_to_refine.clear();\n\t\tthis->cells_to_unrefine.clear();\n\n'))
same('p-ex-wt', ('\tstd::vector<uint64_t> execute_refines()\n\t{\n\t\tusing std::to_string;\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_remote_neighbor_info()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Remote neighbor info is not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_user_data()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " User data is inconsistent" << std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\t\t#endif\n\n\t\tstd::vector<uint64_t> new_cells;\n\n\t\tthis->remote_neighbors.clear();\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\t\tthis->refined_cell_data.clear();\n\t\tthis->unrefined_cell_data.clear();\n\n\t\t#ifdef DEBUG\n\t\t// check that cells_to_refine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_refine(this->cells_to_refine.begin(), this->cells_to_refine.end());\n\t\tstd::sort(ordered_cells_to_refine.begin(), ordered_cells_to_refine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_refine;\n\t\tAll_Gather()(ordered_cells_to_refine, all_ordered_cells_to_refine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_refine[process].begin(),\n\t\t\t\tall_ordered_cells_to_refine[process].end(),\n\t\t\t\tall_ordered_cells_to_refine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_refine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\n\t\t// check that cells_to_unrefine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_unrefine(this->cells_to_unrefine.begin(), this->cells_to_unrefine.end());\n\t\tstd::sort(ordered_cells_to_unrefine.begin(), ordered_cells_to_unrefine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_unrefine;\n\t\tAll_Gather()(ordered_cells_to_unrefine, all_ordered_cells_to_unrefine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_unrefine[process].begin(),\n\t\t\t\tall_ordered_cells_to_unrefine[process].end(),\n\t\t\t\tall_ordered_cells_to_unrefine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_unrefine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\t\t#endif\n\n\t\t// refines\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->rank == this->cell_process.at(refined)\n\t\t\t&& this->cell_data.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Data for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_of.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_to.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor_to list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst auto process_of_refined = this->cell_process.at(refined);\n\n\t\t\t// move user data of refined cells into refined_cell_data\n\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t// TODO: move data instead of copying\n\t\t\t\tthis->refined_cell_data[refined] = this->cell_data.at(refined);\n\t\t\t\tthis->cell_data.erase(refined);\n\t\t\t}\n\n\t\t\t// add children of refined cells into the grid\n\t\t\tconst auto children = this->mapping.get_all_children(refined);\n\t\t\tif (children[0] == error_cell or children[1] == error_cell) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\n\t\t\tfor (const uint64_t child: children) {\n\t\t\t\tthis->cell_process[child] = process_of_refined;\n\n\t\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t\tthis->cell_data[child];\n\t\t\t\t\tthis->neighbors_of[child];\n\t\t\t\t\tthis->neighbors_to[child];\n\t\t\t\t\tnew_cells.push_back(child);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their pin request status\n\t\t\tif (this->pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->pin_requests[child] = this->pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->pin_requests.erase(refined);\n\t\t\t}\n\t\t\tif (this->new_pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->new_pin_requests[child] = this->new_pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->new_pin_requests.erase(refined);\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their weight\n\t\t\tif (this->rank == process_of_refined\n\t\t\t&& this->cell_weights.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->cell_weights[child] = this->cell_weights.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->cell_weights.erase(refined);\n\t\t\t}\n\t\t}\n\n\t\t// initially only one sibling recorded per\n\t\t// process when unrefining, insert rest now\n\t\tstd::unordered_set<uint64_t> all_to_unrefine;\n\t\tstd::unordered_set<uint64_t> parents_of_unrefined;\n\t\tfor (const uint64_t unrefined: this->cells_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (unrefined != this->get_child(unrefined)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Invalid parent cell" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tparents_of_unrefined.insert(parent_of_unrefined);\n\n\t\t\tconst auto siblings = this->mapping.get_all_children(parent_of_unrefined);\n\n\t\t\t// parent will be owned by owner of first child\n\t\t\tthis->cell_process[parent_of_unrefined] = this->cell_process.at(siblings[0]);\n\n\t\t\t#ifdef DEBUG\n\t\t\tbool unrefined_in_siblings = false;\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tif (sibling == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (sibling != this->get_child(sibling)) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has has children"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.at(sibling) == this->rank\n\t\t\t\t&& this->cell_data.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (unrefined == sibling) {\n\t\t\t\t\tunrefined_in_siblings = true;\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tif (!unrefined_in_siblings) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Cell to unrefine isn\'t its parent\'s child" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tall_to_unrefine.insert(sibling);\n\t\t\t}\n\t\t}\n\n\t\t// unrefines\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst uint64_t process_of_parent = this->cell_process.at(parent_of_unrefined);\n\t\t\tconst uint64_t process_of_unrefined = this->cell_process.at(unrefined);\n\n\t\t\t// remove unrefined cells and their siblings\n\t\t\t// from the grid, but don\'t remove user data yet\n\t\t\tthis->cell_process.erase(unrefined);\n\t\t\tthis->pin_requests.erase(unrefined);\n\t\t\tthis->new_pin_requests.erase(unrefined);\n\t\t\tthis->cell_weights.erase(unrefined);\n\n\t\t\t// don\'t send unrefined cells\' user data to self\n\t\t\tif (this->rank == process_of_unrefined\n\t\t\t&& this->rank == process_of_parent) {\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->cell_data.count(unrefined) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t\t<< " to be unrefined has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\t// TODO move data instead of copying\n\t\t\t\tthis->unrefined_cell_data[unrefined] = this->cell_data.at(unrefined);\n\t\t\t\tthis->cell_data.erase(unrefined);\n\n\t\t\t// send user data of removed cell to the parent\'s process\n\t\t\t} else if (this->rank == process_of_unrefined) {\n\n\t\t\t\tthis->cells_to_send[process_of_parent].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\n\t\t\t// receive user data of removed cell from its process\n\t\t\t} else if (this->rank == process_of_parent) {\n\t\t\t\tthis->cells_to_receive[process_of_unrefined].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\n\t\t// receive cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\tsender = this->cells_to_receive.begin();\n\t\t\tsender != this->cells_to_receive.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tstd::sort(sender->second.begin(), sender->second.end());\n\t\t\t// TODO: merge with identical code in make_new_partition\n\t\t\tfor (unsigned int i = 0; i < sender->second.size(); i++) {\n\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << sender->second[i].first\n\t\t\t\t\t\t<< " from process " << sender->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tsender->second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\t\t// send cells in known order and add message tags\n\t\tfor (auto& receiver: this->cells_to_send) {\n\t\t\tstd::sort(receiver.second.begin(), receiver.second.end());\n\t\t\tfor (unsigned int i = 0; i < receiver.second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << receiver.second[i].first\n\t\t\t\t\t\t<< " to process " << receiver.first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\treceiver.second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\n\t\tthis->start_user_data_transfers(\n\t\t\tthis->unrefined_cell_data,\n\t\t\tthis->cells_to_receive,\n\t\t\tthis->cells_to_send,\n\t\t\t-3\n\t\t);\n\n\t\tthis->wait_user_data_transfer_receives();\n\n\t\t// default construct unrefined cells\' parents\' user data\n\t\tfor (const uint64_t parent: parents_of_unrefined) {\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(parent) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\tif (parent != this->get_child(parent)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " still has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tif (this->cell_process.at(parent) == this->rank) {\n\t\t\t\tthis->cell_data[parent];\n\t\t\t}\n\t\t}\n\n\t\tthis->wait_user_data_transfer_sends();\n\n\t\t// now can remove user data of unrefined cells\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\t\t\tthis->cell_data.erase(unrefined);\n\t\t}\n\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_user_data()) {\n\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t}\n\t\t#endif\n\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\t\t\tthis->cell_process.erase(refined);\n\t\t}\n\t\tthis->cells_to_refine.clear();\n\t\tthis->cells_to_unrefine.clear();\n\n', '\tstd::vector<uint64_t> execute_refines()\n\t{\n\t\tusing std::to_string;\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_remote_neighbor_info()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Remote neighbor info is not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_user_data()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " User data is inconsistent" << std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\t\t#endif\n\n\t\tstd::vector<uint64_t> new_cells;\n\n\t\tthis->remote_neighbors.clear();\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\t\tthis->refined_cell_data.clear();\n\t\tthis->unrefined_cell_data.clear();\n\n\t\t#ifdef DEBUG\n\t\t// check that cells_to_refine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_refine(this->cells_to_refine.begin(), this->cells_to_refine.end());\n\t\tstd::sort(ordered_cells_to_refine.begin(), ordered_cells_to_refine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_refine;\n\t\tAll_Gather()(ordered_cells_to_refine, all_ordered_cells_to_refine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_refine[process].begin(),\n\t\t\t\tall_ordered_cells_to_refine[process].end(),\n\t\t\t\tall_ordered_cells_to_refine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_refine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\n\t\t// check that cells_to_unrefine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_unrefine(this->cells_to_unrefine.begin(), this->cells_to_unrefine.end());\n\t\tstd::sort(ordered_cells_to_unrefine.begin(), ordered_cells_to_unrefine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_unrefine;\n\t\tAll_Gather()(ordered_cells_to_unrefine, all_ordered_cells_to_unrefine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_unrefine[process].begin(),\n\t\t\t\tall_ordered_cells_to_unrefine[process].end(),\n\t\t\t\tall_ordered_cells_to_unrefine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_unrefine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\t\t#endif\n\n\t\t// refines\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->rank == this->cell_process.at(refined)\n\t\t\t&& this->cell_data.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Data for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_of.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_to.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor_to list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst auto process_of_refined = this->cell_process.at(refined);\n\n\t\t\t// move user data of refined cells into refined_cell_data\n\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t// TODO: move data instead of copying\n\t\t\t\tthis->refined_cell_data[refined] = this->cell_data.at(refined);\n\t\t\t\tthis->cell_data.erase(refined);\n\t\t\t}\n\n\t\t\t// add children of refined cells into the grid\n\t\t\tconst auto children = this->mapping.get_all_children(refined);\n\t\t\tif (children[0] == error_cell or children[1] == error_cell) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\n\t\t\tfor (const uint64_t child: children) {\n\t\t\t\tthis->cell_process[child] = process_of_refined;\n\n\t\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t\tthis->cell_data[child];\n\t\t\t\t\tthis->neighbors_of[child];\n\t\t\t\t\tthis->neighbors_to[child];\n\t\t\t\t\tnew_cells.push_back(child);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their pin request status\n\t\t\tif (this->pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->pin_requests[child] = this->pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->pin_requests.erase(refined);\n\t\t\t}\n\t\t\tif (this->new_pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->new_pin_requests[child] = this->new_pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->new_pin_requests.erase(refined);\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their weight\n\t\t\tif (process_of_refined == this->rank) {\n\t\t\t\tconst auto weight_of_refined = this->cell_weights.find(refined);\n\t\t\t\tif (weight_of_refined != this->cell_weights.end()) {\n\t\t\t\t\tconst double weight = weight_of_refined->second;\n\t\t\t\t\tfor (size_t i = 0; i < children.size(); i++) {\n\t\t\t\t\t\tthis->cell_weights[children[i]] = weight;\n\t\t\t\t\t}\n\t\t\t\t\tthis->cell_weights.erase(refined);\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\t// initially only one sibling recorded per\n\t\t// process when unrefining, insert rest now\n\t\tstd::unordered_set<uint64_t> all_to_unrefine;\n\t\tstd::unordered_set<uint64_t> parents_of_unrefined;\n\t\tfor (const uint64_t unrefined: this->cells_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (unrefined != this->get_child(unrefined)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Invalid parent cell" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tparents_of_unrefined.insert(parent_of_unrefined);\n\n\t\t\tconst auto siblings = this->mapping.get_all_children(parent_of_unrefined);\n\n\t\t\t// parent will be owned by owner of first child\n\t\t\tthis->cell_process[parent_of_unrefined] = this->cell_process.at(siblings[0]);\n\n\t\t\t#ifdef DEBUG\n\t\t\tbool unrefined_in_siblings = false;\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tif (sibling == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (sibling != this->get_child(sibling)) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has has children"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.at(sibling) == this->rank\n\t\t\t\t&& this->cell_data.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (unrefined == sibling) {\n\t\t\t\t\tunrefined_in_siblings = true;\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tif (!unrefined_in_siblings) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Cell to unrefine isn\'t its parent\'s child" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tall_to_unrefine.insert(sibling);\n\t\t\t}\n\t\t}\n\n\t\t// unrefines\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst uint64_t process_of_parent = this->cell_process.at(parent_of_unrefined);\n\t\t\tconst uint64_t process_of_unrefined = this->cell_process.at(unrefined);\n\n\t\t\t// remove unrefined cells and their siblings\n\t\t\t// from the grid, but don\'t remove user data yet\n\t\t\tthis->cell_process.erase(unrefined);\n\t\t\tthis->pin_requests.erase(unrefined);\n\t\t\tthis->new_pin_requests.erase(unrefined);\n\t\t\tthis->cell_weights.erase(unrefined);\n\n\t\t\t// don\'t send unrefined cells\' user data to self\n\t\t\tif (this->rank == process_of_unrefined\n\t\t\t&& this->rank == process_of_parent) {\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->cell_data.count(unrefined) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t\t<< " to be unrefined has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\t// TODO move data instead of copying\n\t\t\t\tthis->unrefined_cell_data[unrefined] = this->cell_data.at(unrefined);\n\t\t\t\tthis->cell_data.erase(unrefined);\n\n\t\t\t// send user data of removed cell to the parent\'s process\n\t\t\t} else if (this->rank == process_of_unrefined) {\n\n\t\t\t\tthis->cells_to_send[process_of_parent].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\n\t\t\t// receive user data of removed cell from its process\n\t\t\t} else if (this->rank == process_of_parent) {\n\t\t\t\tthis->cells_to_receive[process_of_unrefined].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\n\t\t// receive cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\tsender = this->cells_to_receive.begin();\n\t\t\tsender != this->cells_to_receive.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tstd::sort(sender->second.begin(), sender->second.end());\n\t\t\t// TODO: merge with identical code in make_new_partition\n\t\t\tfor (unsigned int i = 0; i < sender->second.size(); i++) {\n\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << sender->second[i].first\n\t\t\t\t\t\t<< " from process " << sender->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tsender->second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\t\t// send cells in known order and add message tags\n\t\tfor (auto& receiver: this->cells_to_send) {\n\t\t\tstd::sort(receiver.second.begin(), receiver.second.end());\n\t\t\tfor (unsigned int i = 0; i < receiver.second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << receiver.second[i].first\n\t\t\t\t\t\t<< " to process " << receiver.first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\treceiver.second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\n\t\tthis->start_user_data_transfers(\n\t\t\tthis->unrefined_cell_data,\n\t\t\tthis->cells_to_receive,\n\t\t\tthis->cells_to_send,\n\t\t\t-3\n\t\t);\n\n\t\tthis->wait_user_data_transfer_receives();\n\n\t\t// default construct unrefined cells\' parents\' user data\n\t\tfor (const uint64_t parent: parents_of_unrefined) {\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(parent) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\tif (parent != this->get_child(parent)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " still has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tif (this->cell_process.at(parent) == this->rank) {\n\t\t\t\tthis->cell_data[parent];\n\t\t\t}\n\t\t}\n\n\t\tthis->wait_user_data_transfer_sends();\n\n\t\t// now can remove user data of unrefined cells\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\t\t\tthis->cell_data.erase(unrefined);\n\t\t}\n\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_user_data()) {\n\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t}\n\t\t#endif\n\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\t\t\tthis->cell_process.erase(refined);\n\t\t}\n\t\tthis->cells_to_refine.clear();\n\t\tthis->cells_to_unrefine.clear();\n\n'))
same('p-ex-nest', ('\tstd::vector<uint64_t> execute_refines()\n\t{\n\t\tusing std::to_string;\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_remote_neighbor_info()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Remote neighbor info is not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_user_data()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " User data is inconsistent" << std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\t\t#endif\n\n\t\tstd::vector<uint64_t> new_cells;\n\n\t\tthis->remote_neighbors.clear();\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\t\tthis->refined_cell_data.clear();\n\t\tthis->unrefined_cell_data.clear();\n\n\t\t#ifdef DEBUG\n\t\t// check that cells_to_refine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_refine(this->cells_to_refine.begin(), this->cells_to_refine.end());\n\t\tstd::sort(ordered_cells_to_refine.begin(), ordered_cells_to_refine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_refine;\n\t\tAll_Gather()(ordered_cells_to_refine, all_ordered_cells_to_refine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_refine[process].begin(),\n\t\t\t\tall_ordered_cells_to_refine[process].end(),\n\t\t\t\tall_ordered_cells_to_refine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_refine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\n\t\t// check that cells_to_unrefine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_unrefine(this->cells_to_unrefine.begin(), this->cells_to_unrefine.end());\n\t\tstd::sort(ordered_cells_to_unrefine.begin(), ordered_cells_to_unrefine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_unrefine;\n\t\tAll_Gather()(ordered_cells_to_unrefine, all_ordered_cells_to_unrefine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_unrefine[process].begin(),\n\t\t\t\tall_ordered_cells_to_unrefine[process].end(),\n\t\t\t\tall_ordered_cells_to_unrefine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_unrefine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\t\t#endif\n\n\t\t// refines\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->rank == this->cell_process.at(refined)\n\t\t\t&& this->cell_data.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Data for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_of.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_to.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor_to list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst auto process_of_refined = this->cell_process.at(refined);\n\n\t\t\t// move user data of refined cells into refined_cell_data\n\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t// TODO: move data instead of copying\n\t\t\t\tthis->refined_cell_data[refined] = this->cell_data.at(refined);\n\t\t\t\tthis->cell_data.erase(refined);\n\t\t\t}\n\n\t\t\t// add children of refined cells into the grid\n\t\t\tconst auto children = this->mapping.get_all_children(refined);\n\t\t\tif (children[0] == error_cell or children[1] == error_cell) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\n\t\t\tfor (const uint64_t child: children) {\n\t\t\t\tthis->cell_process[child] = process_of_refined;\n\n\t\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t\tthis->cell_data[child];\n\t\t\t\t\tthis->neighbors_of[child];\n\t\t\t\t\tthis->neighbors_to[child];\n\t\t\t\t\tnew_cells.push_back(child);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their pin request status\n\t\t\tif (this->pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->pin_requests[child] = this->pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->pin_requests.erase(refined);\n\t\t\t}\n\t\t\tif (this->new_pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->new_pin_requests[child] = this->new_pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->new_pin_requests.erase(refined);\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their weight\n\t\t\tif (this->rank == process_of_refined\n\t\t\t&& this->cell_weights.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->cell_weights[child] = this->cell_weights.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->cell_weights.erase(refined);\n\t\t\t}\n\t\t}\n\n\t\t// initially only one sibling recorded per\n\t\t// process when unrefining, insert rest now\n\t\tstd::unordered_set<uint64_t> all_to_unrefine;\n\t\tstd::unordered_set<uint64_t> parents_of_unrefined;\n\t\tfor (const uint64_t unrefined: this->cells_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (unrefined != this->get_child(unrefined)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Invalid parent cell" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tparents_of_unrefined.insert(parent_of_unrefined);\n\n\t\t\tconst auto siblings = this->mapping.get_all_children(parent_of_unrefined);\n\n\t\t\t// parent will be owned by owner of first child\n\t\t\tthis->cell_process[parent_of_unrefined] = this->cell_process.at(siblings[0]);\n\n\t\t\t#ifdef DEBUG\n\t\t\tbool unrefined_in_siblings = false;\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tif (sibling == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (sibling != this->get_child(sibling)) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has has children"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.at(sibling) == this->rank\n\t\t\t\t&& this->cell_data.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (unrefined == sibling) {\n\t\t\t\t\tunrefined_in_siblings = true;\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tif (!unrefined_in_siblings) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Cell to unrefine isn\'t its parent\'s child" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tall_to_unrefine.insert(sibling);\n\t\t\t}\n\t\t}\n\n\t\t// unrefines\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst uint64_t process_of_parent = this->cell_process.at(parent_of_unrefined);\n\t\t\tconst uint64_t process_of_unrefined = this->cell_process.at(unrefined);\n\n\t\t\t// remove unrefined cells and their siblings\n\t\t\t// from the grid, but don\'t remove user data yet\n\t\t\tthis->cell_process.erase(unrefined);\n\t\t\tthis->pin_requests.erase(unrefined);\n\t\t\tthis->new_pin_requests.erase(unrefined);\n\t\t\tthis->cell_weights.erase(unrefined);\n\n\t\t\t// don\'t send unrefined cells\' user data to self\n\t\t\tif (this->rank == process_of_unrefined\n\t\t\t&& this->rank == process_of_parent) {\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->cell_data.count(unrefined) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t\t<< " to be unrefined has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\t// TODO move data instead of copying\n\t\t\t\tthis->unrefined_cell_data[unrefined] = this->cell_data.at(unrefined);\n\t\t\t\tthis->cell_data.erase(unrefined);\n\n\t\t\t// send user data of removed cell to the parent\'s process\n\t\t\t} else if (this->rank == process_of_unrefined) {\n\n\t\t\t\tthis->cells_to_send[process_of_parent].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\n\t\t\t// receive user data of removed cell from its process\n\t\t\t} else if (this->rank == process_of_parent) {\n\t\t\t\tthis->cells_to_receive[process_of_unrefined].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\n\t\t// receive cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\tsender = this->cells_to_receive.begin();\n\t\t\tsender != this->cells_to_receive.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tstd::sort(sender->second.begin(), sender->second.end());\n\t\t\t// TODO: merge with identical code in make_new_partition\n\t\t\tfor (unsigned int i = 0; i < sender->second.size(); i++) {\n\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << sender->second[i].first\n\t\t\t\t\t\t<< " from process " << sender->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tsender->second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\t\t// send cells in known order and add message tags\n\t\tfor (auto& receiver: this->cells_to_send) {\n\t\t\tstd::sort(receiver.second.begin(), receiver.second.end());\n\t\t\tfor (unsigned int i = 0; i < receiver.second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << receiver.second[i].first\n\t\t\t\t\t\t<< " to process " << receiver.first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\treceiver.second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\n\t\tthis->start_user_data_transfers(\n\t\t\tthis->unrefined_cell_data,\n\t\t\tthis->cells_to_receive,\n\t\t\tthis->cells_to_send,\n\t\t\t-3\n\t\t);\n\n\t\tthis->wait_user_data_transfer_receives();\n\n\t\t// default construct unrefined cells\' parents\' user data\n\t\tfor (const uint64_t parent: parents_of_unrefined) {\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(parent) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\tif (parent != this->get_child(parent)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " still has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tif (this->cell_process.at(parent) == this->rank) {\n\t\t\t\tthis->cell_data[parent];\n\t\t\t}\n\t\t}\n\n\t\tthis->wait_user_data_transfer_sends();\n\n\t\t// now can remove user data of unrefined cells\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\t\t\tthis->cell_data.erase(unrefined);\n\t\t}\n\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_user_data()) {\n\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t}\n\t\t#endif\n\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\t\t\tthis->cell_process.erase(refined);\n\t\t}\n\t\tthis->cells_to_refine.clear();\n\t\tthis->cells_to_unrefine.clear();\n\n', '\tstd::vector<uint64_t> execute_refines()\n\t{\n\t\tusing std::to_string;\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_remote_neighbor_info()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Remote neighbor info is not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_user_data()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " User data is inconsistent" << std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\t\t#endif\n\n\t\tstd::vector<uint64_t> new_cells;\n\n\t\tthis->remote_neighbors.clear();\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\t\tthis->refined_cell_data.clear();\n\t\tthis->unrefined_cell_data.clear();\n\n\t\t#ifdef DEBUG\n\t\t// check that cells_to_refine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_refine(this->cells_to_refine.begin(), this->cells_to_refine.end());\n\t\tstd::sort(ordered_cells_to_refine.begin(), ordered_cells_to_refine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_refine;\n\t\tAll_Gather()(ordered_cells_to_refine, all_ordered_cells_to_refine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_refine[process].begin(),\n\t\t\t\tall_ordered_cells_to_refine[process].end(),\n\t\t\t\tall_ordered_cells_to_refine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_refine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\n\t\t// check that cells_to_unrefine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_unrefine(this->cells_to_unrefine.begin(), this->cells_to_unrefine.end());\n\t\tstd::sort(ordered_cells_to_unrefine.begin(), ordered_cells_to_unrefine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_unrefine;\n\t\tAll_Gather()(ordered_cells_to_unrefine, all_ordered_cells_to_unrefine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_unrefine[process].begin(),\n\t\t\t\tall_ordered_cells_to_unrefine[process].end(),\n\t\t\t\tall_ordered_cells_to_unrefine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_unrefine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\t\t#endif\n\n\t\t// refines\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->rank == this->cell_process.at(refined)\n\t\t\t&& this->cell_data.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Data for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_of.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_to.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor_to list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst auto process_of_refined = this->cell_process.at(refined);\n\n\t\t\t// move user data of refined cells into refined_cell_data\n\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t// TODO: move data instead of copying\n\t\t\t\tthis->refined_cell_data[refined] = this->cell_data.at(refined);\n\t\t\t\tthis->cell_data.erase(refined);\n\t\t\t}\n\n\t\t\t// add children of refined cells into the grid\n\t\t\tconst auto children = this->mapping.get_all_children(refined);\n\t\t\tif (children[0] == error_cell or children[1] == error_cell) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\n\t\t\tfor (const uint64_t child: children) {\n\t\t\t\tthis->cell_process[child] = process_of_refined;\n\n\t\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t\tthis->cell_data[child];\n\t\t\t\t\tthis->neighbors_of[child];\n\t\t\t\t\tthis->neighbors_to[child];\n\t\t\t\t\tnew_cells.push_back(child);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their pin request status\n\t\t\tif (this->pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->pin_requests[child] = this->pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->pin_requests.erase(refined);\n\t\t\t}\n\t\t\tif (this->new_pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->new_pin_requests[child] = this->new_pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->new_pin_requests.erase(refined);\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their weight\n\t\t\tif (this->rank == process_of_refined\n\t\t\t&& this->cell_weights.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->cell_weights[child] = this->cell_weights.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->cell_weights.erase(refined);\n\t\t\t}\n\t\t}\n\n\t\t// initially only one sibling recorded per\n\t\t// process when unrefining, insert rest now\n\t\tstd::unordered_set<uint64_t> all_to_unrefine;\n\t\tstd::unordered_set<uint64_t> parents_of_unrefined;\n\t\tfor (const uint64_t unrefined: this->cells_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (unrefined != this->get_child(unrefined)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Invalid parent cell" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tparents_of_unrefined.insert(parent_of_unrefined);\n\n\t\t\tconst auto siblings = this->mapping.get_all_children(parent_of_unrefined);\n\n\t\t\t// parent will be owned by owner of first child\n\t\t\tthis->cell_process[parent_of_unrefined] = this->cell_process.at(siblings[0]);\n\n\t\t\t#ifdef DEBUG\n\t\t\tbool unrefined_in_siblings = false;\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tif (sibling == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (sibling != this->get_child(sibling)) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has has children"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.at(sibling) == this->rank\n\t\t\t\t&& this->cell_data.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (unrefined == sibling) {\n\t\t\t\t\tunrefined_in_siblings = true;\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tif (!unrefined_in_siblings) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Cell to unrefine isn\'t its parent\'s child" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tall_to_unrefine.insert(siblings.begin(), siblings.end());\n\t\t}\n\n\t\t// unrefines\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst uint64_t process_of_parent = this->cell_process.at(parent_of_unrefined);\n\t\t\tconst uint64_t process_of_unrefined = this->cell_process.at(unrefined);\n\n\t\t\t// remove unrefined cells and their siblings\n\t\t\t// from the grid, but don\'t remove user data yet\n\t\t\tthis->cell_process.erase(unrefined);\n\t\t\tthis->pin_requests.erase(unrefined);\n\t\t\tthis->new_pin_requests.erase(unrefined);\n\t\t\tthis->cell_weights.erase(unrefined);\n\n\t\t\t// don\'t send unrefined cells\' user data to self\n\t\t\tif (this->rank == process_of_unrefined) { if (this->rank == process_of_parent) {\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->cell_data.count(unrefined) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t\t<< " to be unrefined has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\t// TODO move data instead of copying\n\t\t\t\tthis->unrefined_cell_data[unrefined] = this->cell_data.at(unrefined);\n\t\t\t\tthis->cell_data.erase(unrefined);\n\n\t\t\t// send user data of removed cell to the parent\'s process\n\t\t\t} else {\n\n\t\t\t\tthis->cells_to_send[process_of_parent].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\n\t\t\t}\n\t\t\t// receive\n\t\t\t} else if (this->rank == process_of_parent) {\n\t\t\t\tthis->cells_to_receive[process_of_unrefined].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\n\t\t// receive cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\tsender = this->cells_to_receive.begin();\n\t\t\tsender != this->cells_to_receive.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tstd::sort(sender->second.begin(), sender->second.end());\n\t\t\t// TODO: merge with identical code in make_new_partition\n\t\t\tfor (unsigned int i = 0; i < sender->second.size(); i++) {\n\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << sender->second[i].first\n\t\t\t\t\t\t<< " from process " << sender->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tsender->second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\t\t// send cells in known order and add message tags\n\t\tfor (auto& receiver: this->cells_to_send) {\n\t\t\tstd::sort(receiver.second.begin(), receiver.second.end());\n\t\t\tfor (unsigned int i = 0; i < receiver.second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << receiver.second[i].first\n\t\t\t\t\t\t<< " to process " << receiver.first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\treceiver.second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\n\t\tthis->start_user_data_transfers(\n\t\t\tthis->unrefined_cell_data,\n\t\t\tthis->cells_to_receive,\n\t\t\tthis->cells_to_send,\n\t\t\t-3\n\t\t);\n\n\t\tthis->wait_user_data_transfer_receives();\n\n\t\t// default construct unrefined cells\' parents\' user data\n\t\tfor (const uint64_t parent: parents_of_unrefined) {\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(parent) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\tif (parent != this->get_child(parent)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " still has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tif (this->cell_process.at(parent) == this->rank) {\n\t\t\t\tthis->cell_data[parent];\n\t\t\t}\n\t\t}\n\n\t\tthis->wait_user_data_transfer_sends();\n\n\t\t// now can remove user data of unrefined cells\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\t\t\tthis->cell_data.erase(unrefined);\n\t\t}\n\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_user_data()) {\n\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t}\n\t\t#endif\n\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\t\t\tthis->cell_process.erase(refined);\n\t\t}\n\t\tthis->cells_to_refine.clear();\n\t\tthis->cells_to_unrefine.clear();\n\n'))
same('p-ex-order', ('\tstd::vector<uint64_t> execute_refines()\n\t{\n\t\tusing std::to_string;\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_remote_neighbor_info()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Remote neighbor info is not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_user_data()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " User data is inconsistent" << std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\t\t#endif\n\n\t\tstd::vector<uint64_t> new_cells;\n\n\t\tthis->remote_neighbors.clear();\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\t\tthis->refined_cell_data.clear();\n\t\tthis->unrefined_cell_data.clear();\n\n\t\t#ifdef DEBUG\n\t\t// check that cells_to_refine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_refine(this->cells_to_refine.begin(), this->cells_to_refine.end());\n\t\tstd::sort(ordered_cells_to_refine.begin(), ordered_cells_to_refine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_refine;\n\t\tAll_Gather()(ordered_cells_to_refine, all_ordered_cells_to_refine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_refine[process].begin(),\n\t\t\t\tall_ordered_cells_to_refine[process].end(),\n\t\t\t\tall_ordered_cells_to_refine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_refine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\n\t\t// check that cells_to_unrefine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_unrefine(this->cells_to_unrefine.begin(), this->cells_to_unrefine.end());\n\t\tstd::sort(ordered_cells_to_unrefine.begin(), ordered_cells_to_unrefine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_unrefine;\n\t\tAll_Gather()(ordered_cells_to_unrefine, all_ordered_cells_to_unrefine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_unrefine[process].begin(),\n\t\t\t\tall_ordered_cells_to_unrefine[process].end(),\n\t\t\t\tall_ordered_cells_to_unrefine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_unrefine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\t\t#endif\n\n\t\t// refines\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->rank == this->cell_process.at(refined)\n\t\t\t&& this->cell_data.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Data for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_of.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_to.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor_to list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst auto process_of_refined = this->cell_process.at(refined);\n\n\t\t\t// move user data of refined cells into refined_cell_data\n\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t// TODO: move data instead of copying\n\t\t\t\tthis->refined_cell_data[refined] = this->cell_data.at(refined);\n\t\t\t\tthis->cell_data.erase(refined);\n\t\t\t}\n\n\t\t\t// add children of refined cells into the grid\n\t\t\tconst auto children = this->mapping.get_all_children(refined);\n\t\t\tif (children[0] == error_cell or children[1] == error_cell) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\n\t\t\tfor (const uint64_t child: children) {\n\t\t\t\tthis->cell_process[child] = process_of_refined;\n\n\t\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t\tthis->cell_data[child];\n\t\t\t\t\tthis->neighbors_of[child];\n\t\t\t\t\tthis->neighbors_to[child];\n\t\t\t\t\tnew_cells.push_back(child);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their pin request status\n\t\t\tif (this->pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->pin_requests[child] = this->pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->pin_requests.erase(refined);\n\t\t\t}\n\t\t\tif (this->new_pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->new_pin_requests[child] = this->new_pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->new_pin_requests.erase(refined);\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their weight\n\t\t\tif (this->rank == process_of_refined\n\t\t\t&& this->cell_weights.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->cell_weights[child] = this->cell_weights.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->cell_weights.erase(refined);\n\t\t\t}\n\t\t}\n\n\t\t// initially only one sibling recorded per\n\t\t// process when unrefining, insert rest now\n\t\tstd::unordered_set<uint64_t> all_to_unrefine;\n\t\tstd::unordered_set<uint64_t> parents_of_unrefined;\n\t\tfor (const uint64_t unrefined: this->cells_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (unrefined != this->get_child(unrefined)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Invalid parent cell" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tparents_of_unrefined.insert(parent_of_unrefined);\n\n\t\t\tconst auto siblings = this->mapping.get_all_children(parent_of_unrefined);\n\n\t\t\t// parent will be owned by owner of first child\n\t\t\tthis->cell_process[parent_of_unrefined] = this->cell_process.at(siblings[0]);\n\n\t\t\t#ifdef DEBUG\n\t\t\tbool unrefined_in_siblings = false;\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tif (sibling == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (sibling != this->get_child(sibling)) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has has children"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.at(sibling) == this->rank\n\t\t\t\t&& this->cell_data.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (unrefined == sibling) {\n\t\t\t\t\tunrefined_in_siblings = true;\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tif (!unrefined_in_siblings) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Cell to unrefine isn\'t its parent\'s child" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tall_to_unrefine.insert(sibling);\n\t\t\t}\n\t\t}\n\n\t\t// unrefines\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst uint64_t process_of_parent = this->cell_process.at(parent_of_unrefined);\n\t\t\tconst uint64_t process_of_unrefined = this->cell_process.at(unrefined);\n\n\t\t\t// remove unrefined cells and their siblings\n\t\t\t// from the grid, but don\'t remove user data yet\n\t\t\tthis->cell_process.erase(unrefined);\n\t\t\tthis->pin_requests.erase(unrefined);\n\t\t\tthis->new_pin_requests.erase(unrefined);\n\t\t\tthis->cell_weights.erase(unrefined);\n\n\t\t\t// don\'t send unrefined cells\' user data to self\n\t\t\tif (this->rank == process_of_unrefined\n\t\t\t&& this->rank == process_of_parent) {\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->cell_data.count(unrefined) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t\t<< " to be unrefined has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\t// TODO move data instead of copying\n\t\t\t\tthis->unrefined_cell_data[unrefined] = this->cell_data.at(unrefined);\n\t\t\t\tthis->cell_data.erase(unrefined);\n\n\t\t\t// send user data of removed cell to the parent\'s process\n\t\t\t} else if (this->rank == process_of_unrefined) {\n\n\t\t\t\tthis->cells_to_send[process_of_parent].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\n\t\t\t// receive user data of removed cell from its process\n\t\t\t} else if (this->rank == process_of_parent) {\n\t\t\t\tthis->cells_to_receive[process_of_unrefined].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\n\t\t// receive cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\tsender = this->cells_to_receive.begin();\n\t\t\tsender != this->cells_to_receive.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tstd::sort(sender->second.begin(), sender->second.end());\n\t\t\t// TODO: merge with identical code in make_new_partition\n\t\t\tfor (unsigned int i = 0; i < sender->second.size(); i++) {\n\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << sender->second[i].first\n\t\t\t\t\t\t<< " from process " << sender->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tsender->second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\t\t// send cells in known order and add message tags\n\t\tfor (auto& receiver: this->cells_to_send) {\n\t\t\tstd::sort(receiver.second.begin(), receiver.second.end());\n\t\t\tfor (unsigned int i = 0; i < receiver.second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << receiver.second[i].first\n\t\t\t\t\t\t<< " to process " << receiver.first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\treceiver.second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\n\t\tthis->start_user_data_transfers(\n\t\t\tthis->unrefined_cell_data,\n\t\t\tthis->cells_to_receive,\n\t\t\tthis->cells_to_send,\n\t\t\t-3\n\t\t);\n\n\t\tthis->wait_user_data_transfer_receives();\n\n\t\t// default construct unrefined cells\' parents\' user data\n\t\tfor (const uint64_t parent: parents_of_unrefined) {\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(parent) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\tif (parent != this->get_child(parent)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " still has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tif (this->cell_process.at(parent) == this->rank) {\n\t\t\t\tthis->cell_data[parent];\n\t\t\t}\n\t\t}\n\n\t\tthis->wait_user_data_transfer_sends();\n\n\t\t// now can remove user data of unrefined cells\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\t\t\tthis->cell_data.erase(unrefined);\n\t\t}\n\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_user_data()) {\n\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t}\n\t\t#endif\n\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\t\t\tthis->cell_process.erase(refined);\n\t\t}\n\t\tthis->cells_to_refine.clear();\n\t\tthis->cells_to_unrefine.clear();\n\n', '\tstd::vector<uint64_t> execute_refines()\n\t{\n\t\tusing std::to_string;\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_remote_neighbor_info()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Remote neighbor info is not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_user_data()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " User data is inconsistent" << std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\t\t#endif\n\n\t\tstd::vector<uint64_t> new_cells;\n\n\t\tthis->remote_neighbors.clear();\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\t\tthis->refined_cell_data.clear();\n\t\tthis->unrefined_cell_data.clear();\n\n\t\t#ifdef DEBUG\n\t\t// check that cells_to_refine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_refine(this->cells_to_refine.begin(), this->cells_to_refine.end());\n\t\tstd::sort(ordered_cells_to_refine.begin(), ordered_cells_to_refine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_refine;\n\t\tAll_Gather()(ordered_cells_to_refine, all_ordered_cells_to_refine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_refine[process].begin(),\n\t\t\t\tall_ordered_cells_to_refine[process].end(),\n\t\t\t\tall_ordered_cells_to_refine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_refine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\n\t\t// check that cells_to_unrefine is identical between processes\n\t\tstd::vector<uint64_t> ordered_cells_to_unrefine(this->cells_to_unrefine.begin(), this->cells_to_unrefine.end());\n\t\tstd::sort(ordered_cells_to_unrefine.begin(), ordered_cells_to_unrefine.end());\n\n\t\tstd::vector<std::vector<uint64_t>> all_ordered_cells_to_unrefine;\n\t\tAll_Gather()(ordered_cells_to_unrefine, all_ordered_cells_to_unrefine, this->comm);\n\n\t\tfor (unsigned int process = 0; process < this->comm_size; process++) {\n\t\t\tif (!std::equal(\n\t\t\t\tall_ordered_cells_to_unrefine[process].begin(),\n\t\t\t\tall_ordered_cells_to_unrefine[process].end(),\n\t\t\t\tall_ordered_cells_to_unrefine[0].begin()\n\t\t\t)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " cells_to_unrefine differ between processes 0 and " << process\n\t\t\t\t\t<< std::endl;\n\t\t\t\texit(EXIT_FAILURE);\n\t\t\t}\n\t\t}\n\t\t#endif\n\n\t\t// refines\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->rank == this->cell_process.at(refined)\n\t\t\t&& this->cell_data.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Data for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_of.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->cell_process.at(refined) == this->rank\n\t\t\t&& this->neighbors_to.count(refined) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Neighbor_to list for cell " << refined\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst auto process_of_refined = this->cell_process.at(refined);\n\n\t\t\t// move user data of refined cells into refined_cell_data\n\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t// TODO: move data instead of copying\n\t\t\t\tthis->refined_cell_data[refined] = this->cell_data.at(refined);\n\t\t\t\tthis->cell_data.erase(refined);\n\t\t\t}\n\n\t\t\t// add children of refined cells into the grid\n\t\t\tconst auto children = this->mapping.get_all_children(refined);\n\t\t\tif (children[0] == error_cell or children[1] == error_cell) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\n\t\t\tfor (const uint64_t child: children) {\n\t\t\t\tthis->cell_process[child] = process_of_refined;\n\n\t\t\t\tif (this->rank == process_of_refined) {\n\t\t\t\t\tthis->cell_data[child];\n\t\t\t\t\tthis->neighbors_of[child];\n\t\t\t\t\tthis->neighbors_to[child];\n\t\t\t\t\tnew_cells.push_back(child);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their pin request status\n\t\t\tif (this->pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->pin_requests[child] = this->pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->pin_requests.erase(refined);\n\t\t\t}\n\t\t\tif (this->new_pin_requests.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->new_pin_requests[child] = this->new_pin_requests.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->new_pin_requests.erase(refined);\n\t\t\t}\n\n\t\t\t// children of refined cells inherit their weight\n\t\t\tif (this->rank == process_of_refined\n\t\t\t&& this->cell_weights.count(refined) > 0) {\n\t\t\t\tfor (const uint64_t child: children) {\n\t\t\t\t\tthis->cell_weights[child] = this->cell_weights.at(refined);\n\t\t\t\t}\n\t\t\t\tthis->cell_weights.erase(refined);\n\t\t\t}\n\t\t}\n\n\t\t// initially only one sibling recorded per\n\t\t// process when unrefining, insert rest now\n\t\tstd::unordered_set<uint64_t> all_to_unrefine;\n\t\tstd::unordered_set<uint64_t> parents_of_unrefined;\n\t\tfor (const uint64_t unrefined: this->cells_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (unrefined != this->get_child(unrefined)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Invalid parent cell" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tparents_of_unrefined.insert(parent_of_unrefined);\n\n\t\t\tconst auto siblings = this->mapping.get_all_children(parent_of_unrefined);\n\n\t\t\t// parent will be owned by owner of first child\n\t\t\tthis->cell_process[parent_of_unrefined] = this->cell_process.at(siblings[0]);\n\n\t\t\t#ifdef DEBUG\n\t\t\tbool unrefined_in_siblings = false;\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tif (sibling == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (sibling != this->get_child(sibling)) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has has children"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.at(sibling) == this->rank\n\t\t\t\t&& this->cell_data.count(sibling) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << sibling\n\t\t\t\t\t\t<< " has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tif (unrefined == sibling) {\n\t\t\t\t\tunrefined_in_siblings = true;\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tif (!unrefined_in_siblings) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Cell to unrefine isn\'t its parent\'s child" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tfor (const auto& sibling: siblings) {\n\t\t\t\tall_to_unrefine.insert(sibling);\n\t\t\t}\n\t\t}\n\n\t\t// unrefines\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\n\t\t\tconst uint64_t parent_of_unrefined = this->mapping.get_parent(unrefined);\n\t\t\t#ifdef DEBUG\n\t\t\tif (parent_of_unrefined == unrefined) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t<< " has no parent"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst uint64_t process_of_parent = this->cell_process.at(parent_of_unrefined);\n\t\t\tconst uint64_t process_of_unrefined = this->cell_process.at(unrefined);\n\n\t\t\t// remove unrefined cells and their siblings\n\t\t\t// from the grid, but don\'t remove user data yet\n\t\t\tthis->cell_weights.erase(unrefined);\n\t\t\tthis->new_pin_requests.erase(unrefined);\n\t\t\tthis->pin_requests.erase(unrefined);\n\t\t\tthis->cell_process.erase(unrefined);\n\n\t\t\t// don\'t send unrefined cells\' user data to self\n\t\t\tif (this->rank == process_of_unrefined\n\t\t\t&& this->rank == process_of_parent) {\n\n\t\t\t\t#ifdef DEBUG\n\t\t\t\tif (this->cell_data.count(unrefined) == 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << unrefined\n\t\t\t\t\t\t<< " to be unrefined has no data"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\t#endif\n\n\t\t\t\t// TODO move data instead of copying\n\t\t\t\tthis->unrefined_cell_data[unrefined] = this->cell_data.at(unrefined);\n\t\t\t\tthis->cell_data.erase(unrefined);\n\n\t\t\t// send user data of removed cell to the parent\'s process\n\t\t\t} else if (this->rank == process_of_unrefined) {\n\n\t\t\t\tthis->cells_to_send[process_of_parent].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\n\t\t\t// receive user data of removed cell from its process\n\t\t\t} else if (this->rank == process_of_parent) {\n\t\t\t\tthis->cells_to_receive[process_of_unrefined].push_back(\n\t\t\t\t\tstd::make_pair(unrefined, -1)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\n\t\t// receive cells in known order and add message tags\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::iterator\n\t\t\tsender = this->cells_to_receive.begin();\n\t\t\tsender != this->cells_to_receive.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tstd::sort(sender->second.begin(), sender->second.end());\n\t\t\t// TODO: merge with identical code in make_new_partition\n\t\t\tfor (unsigned int i = 0; i < sender->second.size(); i++) {\n\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << sender->second[i].first\n\t\t\t\t\t\t<< " from process " << sender->first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tsender->second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\t\t// send cells in known order and add message tags\n\t\tfor (auto& receiver: this->cells_to_send) {\n\t\t\tstd::sort(receiver.second.begin(), receiver.second.end());\n\t\t\tfor (unsigned int i = 0; i < receiver.second.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << receiver.second[i].first\n\t\t\t\t\t\t<< " to process " << receiver.first\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\treceiver.second[i].second = tag;\n\t\t\t}\n\t\t}\n\n\n\t\tthis->start_user_data_transfers(\n\t\t\tthis->unrefined_cell_data,\n\t\t\tthis->cells_to_receive,\n\t\t\tthis->cells_to_send,\n\t\t\t-3\n\t\t);\n\n\t\tthis->wait_user_data_transfer_receives();\n\n\t\t// default construct unrefined cells\' parents\' user data\n\t\tfor (const uint64_t parent: parents_of_unrefined) {\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->cell_process.count(parent) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\tif (parent != this->get_child(parent)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Parent " << parent\n\t\t\t\t\t<< " still has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tif (this->cell_process.at(parent) == this->rank) {\n\t\t\t\tthis->cell_data[parent];\n\t\t\t}\n\t\t}\n\n\t\tthis->wait_user_data_transfer_sends();\n\n\t\t// now can remove user data of unrefined cells\n\t\tfor (const uint64_t unrefined: all_to_unrefine) {\n\t\t\tthis->cell_data.erase(unrefined);\n\t\t}\n\n\t\tthis->cells_to_receive.clear();\n\t\tthis->cells_to_send.clear();\n\n\t\t#ifdef DEBUG\n\t\tif (!this->verify_user_data()) {\n\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t}\n\t\t#endif\n\n\t\tfor (const auto& refined: this->cells_to_refine) {\n\t\t\tthis->cell_process.erase(refined);\n\t\t}\n\t\tthis->cells_to_refine.clear();\n\t\tthis->cells_to_unrefine.clear();\n\n'))
same('q-save-items', ('\t\t// write the total number of cells that will be written\n\t\tuint64_t number_of_cells = this->cell_data.size();\n\t\tif (cells_to_write.size() > 0) {\n\t\t\tnumber_of_cells = cells_to_write.size();\n\t\t}\n\t\tconst uint64_t total_number_of_cells\n\t\t\t= All_Reduce()(number_of_cells, this->comm);\n\n\t\tif (write_grid_info) {\n\t\t\tif (this->rank == 0) {\n\t\t\t\tret_val = MPI_File_write_at(\n\t\t\t\t\toutfile,\n\t\t\t\t\toffset,\n\t\t\t\t\t(void*) &total_number_of_cells,\n\t\t\t\t\t1,\n\t\t\t\t\tMPI_UINT64_T,\n\t\t\t\t\tMPI_STATUS_IGNORE\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t write number of cells to file " << name\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\treturn false;\n\t\t\t\t}\n\t\t\t}\n\t\t\toffset += sizeof(uint64_t);\n\t\t}\n\n\t\t// contiguous memory version of cell list needed by MPI_Write_...\n\t\tauto cells_to_write_ = cells_to_write;\n\t\tif (cells_to_write_.size() == 0) {\n\t\t\tcells_to_write_ = this->get_cells();\n\t\t}\n\t\tif (cells_to_write_.size() != number_of_cells) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Number of cells is inconsistent: " << number_of_cells\n\t\t\t\t<< ", should be " << cells_to_write_.size()\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\n\t\t/*\n\t\tCreate a datatype representing all local cell data in memory\n\t\t*/\n\n\t\tstd::vector<void*> addresses(number_of_cells, NULL);\n\t\tstd::vector<int> counts(number_of_cells, -1);\n\t\tstd::vector<MPI_Datatype> mem_datatypes(number_of_cells, MPI_DATATYPE_NULL);\n\n\t\t// get intermediate datatypes from user\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tconst uint64_t cell = cells_to_write_[i];\n\n\t\t\tstd::tie(\n\t\t\t\taddresses[i],\n\t\t\t\tcounts[i],\n\t\t\t\tmem_datatypes[i]\n\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\tthis->cell_data.at(cell),\n\t\t\t\tcell,\n\t\t\t\t(int) this->rank,\n\t\t\t\t-1,\n\t\t\t\tfalse,\n\t\t\t\t-1\n\t\t\t);\n\t\t}\n\n\t\t// displacements of cell data in memory\n\t\tstd::vector<MPI_Aint> memory_displacements(number_of_cells, 0);\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tmemory_displacements[i] = (uint8_t*) addresses[i] - (uint8_t*) addresses[0];\n\t\t}\n\n\t\t// create datatype representing all local cell data in memory\n\t\tMPI_Datatype memory_datatype;\n\t\tif (number_of_cells == 0) {\n\n\t\t\tmemory_datatype = MPI_BYTE;\n\n\t\t} else {\n\n\t\t\tret_val = MPI_Type_create_struct(\n\t\t\t\tnumber_of_cells,\n\t\t\t\t&counts[0],\n\t\t\t\t&memory_displacements[0],\n\t\t\t\t&mem_datatypes[0],\n\t\t\t\t&memory_datatype\n\t\t\t);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t create final datatype: "\n\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tret_val = MPI_Type_commit(&memory_datatype);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< "Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t commit final datatype: "\n\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t}\n\n\n\t\t/*\n\t\tCreate a datatype representing all local cell data in file\n\t\t*/\n\n\t\t// exclude padding from file data by maybe using contiguous datatypes\n\t\tstd::vector<MPI_Datatype> file_datatypes(mem_datatypes.size(), MPI_DATATYPE_NULL);\n\t\tfor (size_t i = 0; i < mem_datatypes.size(); i++) {\n\t\t\tMPI_Datatype& mem_datatype = mem_datatypes[i];\n\n\t\t\tif (Is_Named_Datatype()(mem_datatype)) {\n\n\t\t\t\tfile_datatypes[i] = mem_datatype;\n\n\t\t\t} else {\n\n\t\t\t\tint size_in_bytes;\n\t\t\t\tret_val = MPI_Type_size(mem_datatypes[i], &size_in_bytes);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t get datatype size: "\n\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val =  MPI_Type_contiguous(size_in_bytes, MPI_BYTE, &(file_datatypes[i]));\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t create contiguous datatype: "\n\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\t// calculate where each local cells\' data starts in the file\n\t\tuint64_t current_byte_offset = 0;\n\n\t\tstd::vector<MPI_Aint> file_displacements(number_of_cells, 0);\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\n\t\t\tfile_displacements[i] += current_byte_offset;\n\n\t\t\tint current_bytes;\n\t\t\tret_val = MPI_Type_size(file_datatypes[i], &current_bytes);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t get size of datatype: " << Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\tif (current_bytes < 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tcurrent_byte_offset += counts[i] * (uint64_t) current_bytes;\n\t\t}\n\n\t\t// tell everyone how many bytes everyone will write\n\t\tstd::vector<uint64_t> all_number_of_bytes(this->comm_size, 0);\n\t\tret_val = MPI_Allgather(\n\t\t\t&current_byte_offset,\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\t&(all_number_of_bytes[0]),\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\tcomm\n\t\t);\n\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< "Process " << this->rank\n\t\t\t\t<< " MPI_Allgather failed: "\n\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\t// calculate where local cell data starts in file\n\t\tuint64_t cell_data_start\n\t\t\t= (uint64_t) offset\n\t\t\t+ 2 * total_number_of_cells * sizeof(uint64_t);\n\t\tif (not write_cell_ids) {\n\t\t\tcell_data_start -= total_number_of_cells * sizeof(uint64_t);\n\t\t}\n\t\tif (not write_data_offsets) {\n\t\t\tcell_data_start -= total_number_of_cells * sizeof(uint64_t);\n\t\t}\n\n\t\tfor (size_t i = 0; i < (size_t) this->rank; i++) {\n\t\t\tcell_data_start += all_number_of_bytes[i];\n\t\t}\n\n\t\t// make file displacements relative to start of file\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tfile_displacements[i] += cell_data_start;\n\t\t}\n\n\n\t\t/*\n\t\tWrite cell list(s)\n\t\t*/\n\n\t\t// tell all processes how many cells each one will write\n\t\tstd::vector<uint64_t> all_number_of_cells(this->comm_size, 0);\n\t\tret_val = MPI_Allgather(\n\t\t\t&number_of_cells,\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\t&(all_number_of_cells[0]),\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\tcomm\n\t\t);\n\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Process " << this->rank\n\t\t\t\t<< " MPI_Allgather failed: " << Error_String()(ret_val)\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\t// calculate where local cell list will begin in output file\n\t\tuint64_t cell_list_start = (uint64_t) offset;\n\t\tfor (size_t i = 0; i < (size_t) this->rank; i++) {\n\t\t\tif (write_cell_ids and write_data_offsets) {\n\t\t\t\tcell_list_start += all_number_of_cells[i] * 2 * sizeof(uint64_t);\n\t\t\t} else if (write_cell_ids or write_data_offsets) {\n\t\t\t\tcell_list_start += all_number_of_cells[i] * sizeof(uint64_t);\n\t\t\t}\n\t\t}\n\n\t\t// write cell + data displacement list\n\t\tstd::vector<uint64_t> cells_and_data_displacements(2 * number_of_cells, 0);\n\t\tuint64_t cell_and_disp_len = 0;\n\t\tif (write_cell_ids and write_data_offsets) {\n\t\t\tcell_and_disp_len = 2 * number_of_cells;\n\t\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\t\tcells_and_data_displacements[2 * i] = cells_to_write_[i];\n\t\t\t\tcells_and_data_displacements[2 * i + 1] = file_displacements[i];\n\t\t\t}\n\t\t} else if (write_cell_ids) {\n\t\t\tcell_and_disp_len = number_of_cells;\n\t\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\t\tcells_and_data_displacements[i] = cells_to_write_[i];\n\t\t\t}\n\t\t} else if (write_data_offsets) {\n\t\t\tcell_and_disp_len = number_of_cells;\n\t\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\t\tcells_and_data_displacements[i] = file_displacements[i];\n\t\t\t}\n\t\t} else {\n\t\t\tcell_and_disp_len = 0;\n\t\t}\n\n', '\t\t// write the total number of cells that will be written\n\t\tuint64_t number_of_cells = this->cell_data.size();\n\t\tif (cells_to_write.size() > 0) {\n\t\t\tnumber_of_cells = cells_to_write.size();\n\t\t}\n\t\tconst uint64_t total_number_of_cells\n\t\t\t= All_Reduce()(number_of_cells, this->comm);\n\n\t\tif (write_grid_info) {\n\t\t\tif (this->rank == 0) {\n\t\t\t\tret_val = MPI_File_write_at(\n\t\t\t\t\toutfile,\n\t\t\t\t\toffset,\n\t\t\t\t\t(void*) &total_number_of_cells,\n\t\t\t\t\t1,\n\t\t\t\t\tMPI_UINT64_T,\n\t\t\t\t\tMPI_STATUS_IGNORE\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t write number of cells to file " << name\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\treturn false;\n\t\t\t\t}\n\t\t\t}\n\t\t\toffset += sizeof(uint64_t);\n\t\t}\n\n\t\t// contiguous memory version of cell list needed by MPI_Write_...\n\t\tauto cells_to_write_ = cells_to_write;\n\t\tif (cells_to_write_.size() == 0) {\n\t\t\tcells_to_write_ = this->get_cells();\n\t\t}\n\t\tif (cells_to_write_.size() != number_of_cells) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Number of cells is inconsistent: " << number_of_cells\n\t\t\t\t<< ", should be " << cells_to_write_.size()\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\n\t\t/*\n\t\tCreate a datatype representing all local cell data in memory\n\t\t*/\n\n\t\tstd::vector<void*> addresses(number_of_cells, NULL);\n\t\tstd::vector<int> counts(number_of_cells, -1);\n\t\tstd::vector<MPI_Datatype> mem_datatypes(number_of_cells, MPI_DATATYPE_NULL);\n\n\t\t// get intermediate datatypes from user\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tconst uint64_t cell = cells_to_write_[i];\n\n\t\t\tstd::tie(\n\t\t\t\taddresses[i],\n\t\t\t\tcounts[i],\n\t\t\t\tmem_datatypes[i]\n\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\tthis->cell_data.at(cell),\n\t\t\t\tcell,\n\t\t\t\t(int) this->rank,\n\t\t\t\t-1,\n\t\t\t\tfalse,\n\t\t\t\t-1\n\t\t\t);\n\t\t}\n\n\t\t// displacements of cell data in memory\n\t\tstd::vector<MPI_Aint> memory_displacements(number_of_cells, 0);\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tmemory_displacements[i] = (uint8_t*) addresses[i] - (uint8_t*) addresses[0];\n\t\t}\n\n\t\t// create datatype representing all local cell data in memory\n\t\tMPI_Datatype memory_datatype;\n\t\tif (number_of_cells == 0) {\n\n\t\t\tmemory_datatype = MPI_BYTE;\n\n\t\t} else {\n\n\t\t\tret_val = MPI_Type_create_struct(\n\t\t\t\tnumber_of_cells,\n\t\t\t\t&counts[0],\n\t\t\t\t&memory_displacements[0],\n\t\t\t\t&mem_datatypes[0],\n\t\t\t\t&memory_datatype\n\t\t\t);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t create final datatype: "\n\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tret_val = MPI_Type_commit(&memory_datatype);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< "Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t commit final datatype: "\n\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t}\n\n\n\t\t/*\n\t\tCreate a datatype representing all local cell data in file\n\t\t*/\n\n\t\t// exclude padding from file data by maybe using contiguous datatypes\n\t\tstd::vector<MPI_Datatype> file_datatypes(mem_datatypes.size(), MPI_DATATYPE_NULL);\n\t\tfor (size_t i = 0; i < mem_datatypes.size(); i++) {\n\t\t\tMPI_Datatype& mem_datatype = mem_datatypes[i];\n\n\t\t\tif (Is_Named_Datatype()(mem_datatype)) {\n\n\t\t\t\tfile_datatypes[i] = mem_datatype;\n\n\t\t\t} else {\n\n\t\t\t\tint size_in_bytes;\n\t\t\t\tret_val = MPI_Type_size(mem_datatypes[i], &size_in_bytes);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t get datatype size: "\n\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val =  MPI_Type_contiguous(size_in_bytes, MPI_BYTE, &(file_datatypes[i]));\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t create contiguous datatype: "\n\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\t// calculate where each local cells\' data starts in the file\n\t\tuint64_t current_byte_offset = 0;\n\n\t\tstd::vector<MPI_Aint> file_displacements(number_of_cells, 0);\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\n\t\t\tfile_displacements[i] += current_byte_offset;\n\n\t\t\tint current_bytes;\n\t\t\tret_val = MPI_Type_size(file_datatypes[i], &current_bytes);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t get size of datatype: " << Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\tif (current_bytes < 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tcurrent_byte_offset += counts[i] * (uint64_t) current_bytes;\n\t\t}\n\n\t\t// tell everyone how many bytes everyone will write\n\t\tstd::vector<uint64_t> all_number_of_bytes(this->comm_size, 0);\n\t\tret_val = MPI_Allgather(\n\t\t\t&current_byte_offset,\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\t&(all_number_of_bytes[0]),\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\tcomm\n\t\t);\n\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< "Process " << this->rank\n\t\t\t\t<< " MPI_Allgather failed: "\n\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\t// calculate where local cell data starts in file\n\t\tconst uint64_t items_per_cell = (write_cell_ids ? 1 : 0) + (write_data_offsets ? 1 : 0);\n\t\tuint64_t cell_data_start = (uint64_t) offset + items_per_cell * total_number_of_cells * sizeof(uint64_t);\n\n\t\tfor (size_t i = 0; i < (size_t) this->rank; i++) {\n\t\t\tcell_data_start += all_number_of_bytes[i];\n\t\t}\n\n\t\t// make file displacements relative to start of file\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tfile_displacements[i] += cell_data_start;\n\t\t}\n\n\n\t\t/*\n\t\tWrite cell list(s)\n\t\t*/\n\n\t\t// tell all processes how many cells each one will write\n\t\tstd::vector<uint64_t> all_number_of_cells(this->comm_size, 0);\n\t\tret_val = MPI_Allgather(\n\t\t\t&number_of_cells,\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\t&(all_number_of_cells[0]),\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\tcomm\n\t\t);\n\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Process " << this->rank\n\t\t\t\t<< " MPI_Allgather failed: " << Error_String()(ret_val)\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\t// calculate where local cell list will begin in output file\n\t\tuint64_t cell_list_start = (uint64_t) offset;\n\t\tfor (size_t i = 0; i < (size_t) this->rank; i++) {\n\t\t\tcell_list_start += all_number_of_cells[i] * items_per_cell * sizeof(uint64_t);\n\t\t}\n\n\t\t// write cell + data displacement list\n\t\tstd::vector<uint64_t> cells_and_data_displacements(2 * number_of_cells, 0);\n\t\tuint64_t cell_and_disp_len = 0;\n\t\tif (write_cell_ids and write_data_offsets) {\n\t\t\tcell_and_disp_len = 2 * number_of_cells;\n\t\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\t\tcells_and_data_displacements[2 * i] = cells_to_write_[i];\n\t\t\t\tcells_and_data_displacements[2 * i + 1] = file_displacements[i];\n\t\t\t}\n\t\t} else if (write_cell_ids) {\n\t\t\tcell_and_disp_len = number_of_cells;\n\t\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\t\tcells_and_data_displacements[i] = cells_to_write_[i];\n\t\t\t}\n\t\t} else if (write_data_offsets) {\n\t\t\tcell_and_disp_len = number_of_cells;\n\t\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\t\tcells_and_data_displacements[i] = file_displacements[i];\n\t\t\t}\n\t\t} else {\n\t\t\tcell_and_disp_len = 0;\n\t\t}\n\n'))
same('q-save-accumulate', ('\t\t// write the total number of cells that will be written\n\t\tuint64_t number_of_cells = this->cell_data.size();\n\t\tif (cells_to_write.size() > 0) {\n\t\t\tnumber_of_cells = cells_to_write.size();\n\t\t}\n\t\tconst uint64_t total_number_of_cells\n\t\t\t= All_Reduce()(number_of_cells, this->comm);\n\n\t\tif (write_grid_info) {\n\t\t\tif (this->rank == 0) {\n\t\t\t\tret_val = MPI_File_write_at(\n\t\t\t\t\toutfile,\n\t\t\t\t\toffset,\n\t\t\t\t\t(void*) &total_number_of_cells,\n\t\t\t\t\t1,\n\t\t\t\t\tMPI_UINT64_T,\n\t\t\t\t\tMPI_STATUS_IGNORE\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t write number of cells to file " << name\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\treturn false;\n\t\t\t\t}\n\t\t\t}\n\t\t\toffset += sizeof(uint64_t);\n\t\t}\n\n\t\t// contiguous memory version of cell list needed by MPI_Write_...\n\t\tauto cells_to_write_ = cells_to_write;\n\t\tif (cells_to_write_.size() == 0) {\n\t\t\tcells_to_write_ = this->get_cells();\n\t\t}\n\t\tif (cells_to_write_.size() != number_of_cells) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Number of cells is inconsistent: " << number_of_cells\n\t\t\t\t<< ", should be " << cells_to_write_.size()\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\n\t\t/*\n\t\tCreate a datatype representing all local cell data in memory\n\t\t*/\n\n\t\tstd::vector<void*> addresses(number_of_cells, NULL);\n\t\tstd::vector<int> counts(number_of_cells, -1);\n\t\tstd::vector<MPI_Datatype> mem_datatypes(number_of_cells, MPI_DATATYPE_NULL);\n\n\t\t// get intermediate datatypes from user\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tconst uint64_t cell = cells_to_write_[i];\n\n\t\t\tstd::tie(\n\t\t\t\taddresses[i],\n\t\t\t\tcounts[i],\n\t\t\t\tmem_datatypes[i]\n\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\tthis->cell_data.at(cell),\n\t\t\t\tcell,\n\t\t\t\t(int) this->rank,\n\t\t\t\t-1,\n\t\t\t\tfalse,\n\t\t\t\t-1\n\t\t\t);\n\t\t}\n\n\t\t// displacements of cell data in memory\n\t\tstd::vector<MPI_Aint> memory_displacements(number_of_cells, 0);\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tmemory_displacements[i] = (uint8_t*) addresses[i] - (uint8_t*) addresses[0];\n\t\t}\n\n\t\t// create datatype representing all local cell data in memory\n\t\tMPI_Datatype memory_datatype;\n\t\tif (number_of_cells == 0) {\n\n\t\t\tmemory_datatype = MPI_BYTE;\n\n\t\t} else {\n\n\t\t\tret_val = MPI_Type_create_struct(\n\t\t\t\tnumber_of_cells,\n\t\t\t\t&counts[0],\n\t\t\t\t&memory_displacements[0],\n\t\t\t\t&mem_datatypes[0],\n\t\t\t\t&memory_datatype\n\t\t\t);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t create final datatype: "\n\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tret_val = MPI_Type_commit(&memory_datatype);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< "Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t commit final datatype: "\n\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t}\n\n\n\t\t/*\n\t\tCreate a datatype representing all local cell data in file\n\t\t*/\n\n\t\t// exclude padding from file data by maybe using contiguous datatypes\n\t\tstd::vector<MPI_Datatype> file_datatypes(mem_datatypes.size(), MPI_DATATYPE_NULL);\n\t\tfor (size_t i = 0; i < mem_datatypes.size(); i++) {\n\t\t\tMPI_Datatype& mem_datatype = mem_datatypes[i];\n\n\t\t\tif (Is_Named_Datatype()(mem_datatype)) {\n\n\t\t\t\tfile_datatypes[i] = mem_datatype;\n\n\t\t\t} else {\n\n\t\t\t\tint size_in_bytes;\n\t\t\t\tret_val = MPI_Type_size(mem_datatypes[i], &size_in_bytes);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t get datatype size: "\n\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val =  MPI_Type_contiguous(size_in_bytes, MPI_BYTE, &(file_datatypes[i]));\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t create contiguous datatype: "\n\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\t// calculate where each local cells\' data starts in the file\n\t\tuint64_t current_byte_offset = 0;\n\n\t\tstd::vector<MPI_Aint> file_displacements(number_of_cells, 0);\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\n\t\t\tfile_displacements[i] += current_byte_offset;\n\n\t\t\tint current_bytes;\n\t\t\tret_val = MPI_Type_size(file_datatypes[i], &current_bytes);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t get size of datatype: " << Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\tif (current_bytes < 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tcurrent_byte_offset += counts[i] * (uint64_t) current_bytes;\n\t\t}\n\n\t\t// tell everyone how many bytes everyone will write\n\t\tstd::vector<uint64_t> all_number_of_bytes(this->comm_size, 0);\n\t\tret_val = MPI_Allgather(\n\t\t\t&current_byte_offset,\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\t&(all_number_of_bytes[0]),\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\tcomm\n\t\t);\n\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< "Process " << this->rank\n\t\t\t\t<< " MPI_Allgather failed: "\n\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\t// calculate where local cell data starts in file\n\t\tuint64_t cell_data_start\n\t\t\t= (uint64_t) offset\n\t\t\t+ 2 * total_number_of_cells * sizeof(uint64_t);\n\t\tif (not write_cell_ids) {\n\t\t\tcell_data_start -= total_number_of_cells * sizeof(uint64_t);\n\t\t}\n\t\tif (not write_data_offsets) {\n\t\t\tcell_data_start -= total_number_of_cells * sizeof(uint64_t);\n\t\t}\n\n\t\tfor (size_t i = 0; i < (size_t) this->rank; i++) {\n\t\t\tcell_data_start += all_number_of_bytes[i];\n\t\t}\n\n\t\t// make file displacements relative to start of file\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tfile_displacements[i] += cell_data_start;\n\t\t}\n\n\n\t\t/*\n\t\tWrite cell list(s)\n\t\t*/\n\n\t\t// tell all processes how many cells each one will write\n\t\tstd::vector<uint64_t> all_number_of_cells(this->comm_size, 0);\n\t\tret_val = MPI_Allgather(\n\t\t\t&number_of_cells,\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\t&(all_number_of_cells[0]),\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\tcomm\n\t\t);\n\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Process " << this->rank\n\t\t\t\t<< " MPI_Allgather failed: " << Error_String()(ret_val)\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\t// calculate where local cell list will begin in output file\n\t\tuint64_t cell_list_start = (uint64_t) offset;\n\t\tfor (size_t i = 0; i < (size_t) this->rank; i++) {\n\t\t\tif (write_cell_ids and write_data_offsets) {\n\t\t\t\tcell_list_start += all_number_of_cells[i] * 2 * sizeof(uint64_t);\n\t\t\t} else if (write_cell_ids or write_data_offsets) {\n\t\t\t\tcell_list_start += all_number_of_cells[i] * sizeof(uint64_t);\n\t\t\t}\n\t\t}\n\n\t\t// write cell + data displacement list\n\t\tstd::vector<uint64_t> cells_and_data_displacements(2 * number_of_cells, 0);\n\t\tuint64_t cell_and_disp_len = 0;\n\t\tif (write_cell_ids and write_data_offsets) {\n\t\t\tcell_and_disp_len = 2 * number_of_cells;\n\t\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\t\tcells_and_data_displacements[2 * i] = cells_to_write_[i];\n\t\t\t\tcells_and_data_displacements[2 * i + 1] = file_displacements[i];\n\t\t\t}\n\t\t} else if (write_cell_ids) {\n\t\t\tcell_and_disp_len = number_of_cells;\n\t\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\t\tcells_and_data_displacements[i] = cells_to_write_[i];\n\t\t\t}\n\t\t} else if (write_data_offsets) {\n\t\t\tcell_and_disp_len = number_of_cells;\n\t\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\t\tcells_and_data_displacements[i] = file_displacements[i];\n\t\t\t}\n\t\t} else {\n\t\t\tcell_and_disp_len = 0;\n\t\t}\n\n', '\t\t// write the total number of cells that will be written\n\t\tuint64_t number_of_cells = this->cell_data.size();\n\t\tif (cells_to_write.size() > 0) {\n\t\t\tnumber_of_cells = cells_to_write.size();\n\t\t}\n\t\tconst uint64_t total_number_of_cells\n\t\t\t= All_Reduce()(number_of_cells, this->comm);\n\n\t\tif (write_grid_info) {\n\t\t\tif (this->rank == 0) {\n\t\t\t\tret_val = MPI_File_write_at(\n\t\t\t\t\toutfile,\n\t\t\t\t\toffset,\n\t\t\t\t\t(void*) &total_number_of_cells,\n\t\t\t\t\t1,\n\t\t\t\t\tMPI_UINT64_T,\n\t\t\t\t\tMPI_STATUS_IGNORE\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t write number of cells to file " << name\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\treturn false;\n\t\t\t\t}\n\t\t\t}\n\t\t\toffset += sizeof(uint64_t);\n\t\t}\n\n\t\t// contiguous memory version of cell list needed by MPI_Write_...\n\t\tauto cells_to_write_ = cells_to_write;\n\t\tif (cells_to_write_.size() == 0) {\n\t\t\tcells_to_write_ = this->get_cells();\n\t\t}\n\t\tif (cells_to_write_.size() != number_of_cells) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Number of cells is inconsistent: " << number_of_cells\n\t\t\t\t<< ", should be " << cells_to_write_.size()\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\n\t\t/*\n\t\tCreate a datatype representing all local cell data in memory\n\t\t*/\n\n\t\tstd::vector<void*> addresses(number_of_cells, NULL);\n\t\tstd::vector<int> counts(number_of_cells, -1);\n\t\tstd::vector<MPI_Datatype> mem_datatypes(number_of_cells, MPI_DATATYPE_NULL);\n\n\t\t// get intermediate datatypes from user\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tconst uint64_t cell = cells_to_write_[i];\n\n\t\t\tstd::tie(\n\t\t\t\taddresses[i],\n\t\t\t\tcounts[i],\n\t\t\t\tmem_datatypes[i]\n\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\tthis->cell_data.at(cell),\n\t\t\t\tcell,\n\t\t\t\t(int) this->rank,\n\t\t\t\t-1,\n\t\t\t\tfalse,\n\t\t\t\t-1\n\t\t\t);\n\t\t}\n\n\t\t// displacements of cell data in memory\n\t\tstd::vector<MPI_Aint> memory_displacements(number_of_cells, 0);\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tmemory_displacements[i] = (uint8_t*) addresses[i] - (uint8_t*) addresses[0];\n\t\t}\n\n\t\t// create datatype representing all local cell data in memory\n\t\tMPI_Datatype memory_datatype;\n\t\tif (number_of_cells == 0) {\n\n\t\t\tmemory_datatype = MPI_BYTE;\n\n\t\t} else {\n\n\t\t\tret_val = MPI_Type_create_struct(\n\t\t\t\tnumber_of_cells,\n\t\t\t\t&counts[0],\n\t\t\t\t&memory_displacements[0],\n\t\t\t\t&mem_datatypes[0],\n\t\t\t\t&memory_datatype\n\t\t\t);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t create final datatype: "\n\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tret_val = MPI_Type_commit(&memory_datatype);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< "Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t commit final datatype: "\n\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t}\n\n\n\t\t/*\n\t\tCreate a datatype representing all local cell data in file\n\t\t*/\n\n\t\t// exclude padding from file data by maybe using contiguous datatypes\n\t\tstd::vector<MPI_Datatype> file_datatypes(mem_datatypes.size(), MPI_DATATYPE_NULL);\n\t\tfor (size_t i = 0; i < mem_datatypes.size(); i++) {\n\t\t\tMPI_Datatype& mem_datatype = mem_datatypes[i];\n\n\t\t\tif (Is_Named_Datatype()(mem_datatype)) {\n\n\t\t\t\tfile_datatypes[i] = mem_datatype;\n\n\t\t\t} else {\n\n\t\t\t\tint size_in_bytes;\n\t\t\t\tret_val = MPI_Type_size(mem_datatypes[i], &size_in_bytes);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t get datatype size: "\n\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val =  MPI_Type_contiguous(size_in_bytes, MPI_BYTE, &(file_datatypes[i]));\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t create contiguous datatype: "\n\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\t// calculate where each local cells\' data starts in the file\n\t\tuint64_t current_byte_offset = 0;\n\n\t\tstd::vector<MPI_Aint> file_displacements(number_of_cells, 0);\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\n\t\t\tfile_displacements[i] += current_byte_offset;\n\n\t\t\tint current_bytes;\n\t\t\tret_val = MPI_Type_size(file_datatypes[i], &current_bytes);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t get size of datatype: " << Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\tif (current_bytes < 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tcurrent_byte_offset += counts[i] * (uint64_t) current_bytes;\n\t\t}\n\n\t\t// tell everyone how many bytes everyone will write\n\t\tstd::vector<uint64_t> all_number_of_bytes(this->comm_size, 0);\n\t\tret_val = MPI_Allgather(\n\t\t\t&current_byte_offset,\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\t&(all_number_of_bytes[0]),\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\tcomm\n\t\t);\n\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< "Process " << this->rank\n\t\t\t\t<< " MPI_Allgather failed: "\n\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\t// calculate where local cell data starts in file\n\t\tuint64_t cell_data_start\n\t\t\t= (uint64_t) offset\n\t\t\t+ 2 * total_number_of_cells * sizeof(uint64_t);\n\t\tif (not write_cell_ids) {\n\t\t\tcell_data_start -= total_number_of_cells * sizeof(uint64_t);\n\t\t}\n\t\tif (not write_data_offsets) {\n\t\t\tcell_data_start -= total_number_of_cells * sizeof(uint64_t);\n\t\t}\n\n\t\tcell_data_start = std::accumulate(\n\t\t\tall_number_of_bytes.begin(),\n\t\t\tall_number_of_bytes.begin() + this->rank,\n\t\t\tcell_data_start\n\t\t);\n\n\t\t// make file displacements relative to start of file\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tfile_displacements[i] += cell_data_start;\n\t\t}\n\n\n\t\t/*\n\t\tWrite cell list(s)\n\t\t*/\n\n\t\t// tell all processes how many cells each one will write\n\t\tstd::vector<uint64_t> all_number_of_cells(this->comm_size, 0);\n\t\tret_val = MPI_Allgather(\n\t\t\t&number_of_cells,\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\t&(all_number_of_cells[0]),\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\tcomm\n\t\t);\n\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Process " << this->rank\n\t\t\t\t<< " MPI_Allgather failed: " << Error_String()(ret_val)\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\t// calculate where local cell list will begin in output file\n\t\tuint64_t cell_list_start = (uint64_t) offset;\n\t\tfor (size_t i = 0; i < (size_t) this->rank; i++) {\n\t\t\tif (write_cell_ids and write_data_offsets) {\n\t\t\t\tcell_list_start += all_number_of_cells[i] * 2 * sizeof(uint64_t);\n\t\t\t} else if (write_cell_ids or write_data_offsets) {\n\t\t\t\tcell_list_start += all_number_of_cells[i] * sizeof(uint64_t);\n\t\t\t}\n\t\t}\n\n\t\t// write cell + data displacement list\n\t\tstd::vector<uint64_t> cells_and_data_displacements(2 * number_of_cells, 0);\n\t\tuint64_t cell_and_disp_len = 0;\n\t\tif (write_cell_ids and write_data_offsets) {\n\t\t\tcell_and_disp_len = 2 * number_of_cells;\n\t\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\t\tcells_and_data_displacements[2 * i] = cells_to_write_[i];\n\t\t\t\tcells_and_data_displacements[2 * i + 1] = file_displacements[i];\n\t\t\t}\n\t\t} else if (write_cell_ids) {\n\t\t\tcell_and_disp_len = number_of_cells;\n\t\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\t\tcells_and_data_displacements[i] = cells_to_write_[i];\n\t\t\t}\n\t\t} else if (write_data_offsets) {\n\t\t\tcell_and_disp_len = number_of_cells;\n\t\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\t\tcells_and_data_displacements[i] = file_displacements[i];\n\t\t\t}\n\t\t} else {\n\t\t\tcell_and_disp_len = 0;\n\t\t}\n\n'), ('#include "algorithm"\n', '#include "algorithm"\n#include "numeric"\n'))
same('q-save-cells', ('\t\t// write the total number of cells that will be written\n\t\tuint64_t number_of_cells = this->cell_data.size();\n\t\tif (cells_to_write.size() > 0) {\n\t\t\tnumber_of_cells = cells_to_write.size();\n\t\t}\n\t\tconst uint64_t total_number_of_cells\n\t\t\t= All_Reduce()(number_of_cells, this->comm);\n\n\t\tif (write_grid_info) {\n\t\t\tif (this->rank == 0) {\n\t\t\t\tret_val = MPI_File_write_at(\n\t\t\t\t\toutfile,\n\t\t\t\t\toffset,\n\t\t\t\t\t(void*) &total_number_of_cells,\n\t\t\t\t\t1,\n\t\t\t\t\tMPI_UINT64_T,\n\t\t\t\t\tMPI_STATUS_IGNORE\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t write number of cells to file " << name\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\treturn false;\n\t\t\t\t}\n\t\t\t}\n\t\t\toffset += sizeof(uint64_t);\n\t\t}\n\n\t\t// contiguous memory version of cell list needed by MPI_Write_...\n\t\tauto cells_to_write_ = cells_to_write;\n\t\tif (cells_to_write_.size() == 0) {\n\t\t\tcells_to_write_ = this->get_cells();\n\t\t}\n\t\tif (cells_to_write_.size() != number_of_cells) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Number of cells is inconsistent: " << number_of_cells\n\t\t\t\t<< ", should be " << cells_to_write_.size()\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\n\t\t/*\n\t\tCreate a datatype representing all local cell data in memory\n\t\t*/\n\n\t\tstd::vector<void*> addresses(number_of_cells, NULL);\n\t\tstd::vector<int> counts(number_of_cells, -1);\n\t\tstd::vector<MPI_Datatype> mem_datatypes(number_of_cells, MPI_DATATYPE_NULL);\n\n\t\t// get intermediate datatypes from user\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tconst uint64_t cell = cells_to_write_[i];\n\n\t\t\tstd::tie(\n\t\t\t\taddresses[i],\n\t\t\t\tcounts[i],\n\t\t\t\tmem_datatypes[i]\n\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\tthis->cell_data.at(cell),\n\t\t\t\tcell,\n\t\t\t\t(int) this->rank,\n\t\t\t\t-1,\n\t\t\t\tfalse,\n\t\t\t\t-1\n\t\t\t);\n\t\t}\n\n\t\t// displacements of cell data in memory\n\t\tstd::vector<MPI_Aint> memory_displacements(number_of_cells, 0);\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tmemory_displacements[i] = (uint8_t*) addresses[i] - (uint8_t*) addresses[0];\n\t\t}\n\n\t\t// create datatype representing all local cell data in memory\n\t\tMPI_Datatype memory_datatype;\n\t\tif (number_of_cells == 0) {\n\n\t\t\tmemory_datatype = MPI_BYTE;\n\n\t\t} else {\n\n\t\t\tret_val = MPI_Type_create_struct(\n\t\t\t\tnumber_of_cells,\n\t\t\t\t&counts[0],\n\t\t\t\t&memory_displacements[0],\n\t\t\t\t&mem_datatypes[0],\n\t\t\t\t&memory_datatype\n\t\t\t);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t create final datatype: "\n\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tret_val = MPI_Type_commit(&memory_datatype);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< "Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t commit final datatype: "\n\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t}\n\n\n\t\t/*\n\t\tCreate a datatype representing all local cell data in file\n\t\t*/\n\n\t\t// exclude padding from file data by maybe using contiguous datatypes\n\t\tstd::vector<MPI_Datatype> file_datatypes(mem_datatypes.size(), MPI_DATATYPE_NULL);\n\t\tfor (size_t i = 0; i < mem_datatypes.size(); i++) {\n\t\t\tMPI_Datatype& mem_datatype = mem_datatypes[i];\n\n\t\t\tif (Is_Named_Datatype()(mem_datatype)) {\n\n\t\t\t\tfile_datatypes[i] = mem_datatype;\n\n\t\t\t} else {\n\n\t\t\t\tint size_in_bytes;\n\t\t\t\tret_val = MPI_Type_size(mem_datatypes[i], &size_in_bytes);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t get datatype size: "\n\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val =  MPI_Type_contiguous(size_in_bytes, MPI_BYTE, &(file_datatypes[i]));\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t create contiguous datatype: "\n\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\t// calculate where each local cells\' data starts in the file\n\t\tuint64_t current_byte_offset = 0;\n\n\t\tstd::vector<MPI_Aint> file_displacements(number_of_cells, 0);\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\n\t\t\tfile_displacements[i] += current_byte_offset;\n\n\t\t\tint current_bytes;\n\t\t\tret_val = MPI_Type_size(file_datatypes[i], &current_bytes);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t get size of datatype: " << Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\tif (current_bytes < 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tcurrent_byte_offset += counts[i] * (uint64_t) current_bytes;\n\t\t}\n\n\t\t// tell everyone how many bytes everyone will write\n\t\tstd::vector<uint64_t> all_number_of_bytes(this->comm_size, 0);\n\t\tret_val = MPI_Allgather(\n\t\t\t&current_byte_offset,\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\t&(all_number_of_bytes[0]),\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\tcomm\n\t\t);\n\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< "Process " << this->rank\n\t\t\t\t<< " MPI_Allgather failed: "\n\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\t// calculate where local cell data starts in file\n\t\tuint64_t cell_data_start\n\t\t\t= (uint64_t) offset\n\t\t\t+ 2 * total_number_of_cells * sizeof(uint64_t);\n\t\tif (not write_cell_ids) {\n\t\t\tcell_data_start -= total_number_of_cells * sizeof(uint64_t);\n\t\t}\n\t\tif (not write_data_offsets) {\n\t\t\tcell_data_start -= total_number_of_cells * sizeof(uint64_t);\n\t\t}\n\n\t\tfor (size_t i = 0; i < (size_t) this->rank; i++) {\n\t\t\tcell_data_start += all_number_of_bytes[i];\n\t\t}\n\n\t\t// make file displacements relative to start of file\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tfile_displacements[i] += cell_data_start;\n\t\t}\n\n\n\t\t/*\n\t\tWrite cell list(s)\n\t\t*/\n\n\t\t// tell all processes how many cells each one will write\n\t\tstd::vector<uint64_t> all_number_of_cells(this->comm_size, 0);\n\t\tret_val = MPI_Allgather(\n\t\t\t&number_of_cells,\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\t&(all_number_of_cells[0]),\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\tcomm\n\t\t);\n\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Process " << this->rank\n\t\t\t\t<< " MPI_Allgather failed: " << Error_String()(ret_val)\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\t// calculate where local cell list will begin in output file\n\t\tuint64_t cell_list_start = (uint64_t) offset;\n\t\tfor (size_t i = 0; i < (size_t) this->rank; i++) {\n\t\t\tif (write_cell_ids and write_data_offsets) {\n\t\t\t\tcell_list_start += all_number_of_cells[i] * 2 * sizeof(uint64_t);\n\t\t\t} else if (write_cell_ids or write_data_offsets) {\n\t\t\t\tcell_list_start += all_number_of_cells[i] * sizeof(uint64_t);\n\t\t\t}\n\t\t}\n\n\t\t// write cell + data displacement list\n\t\tstd::vector<uint64_t> cells_and_data_displacements(2 * number_of_cells, 0);\n\t\tuint64_t cell_and_disp_len = 0;\n\t\tif (write_cell_ids and write_data_offsets) {\n\t\t\tcell_and_disp_len = 2 * number_of_cells;\n\t\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\t\tcells_and_data_displacements[2 * i] = cells_to_write_[i];\n\t\t\t\tcells_and_data_displacements[2 * i + 1] = file_displacements[i];\n\t\t\t}\n\t\t} else if (write_cell_ids) {\n\t\t\tcell_and_disp_len = number_of_cells;\n\t\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\t\tcells_and_data_displacements[i] = cells_to_write_[i];\n\t\t\t}\n\t\t} else if (write_data_offsets) {\n\t\t\tcell_and_disp_len = number_of_cells;\n\t\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\t\tcells_and_data_displacements[i] = file_displacements[i];\n\t\t\t}\n\t\t} else {\n\t\t\tcell_and_disp_len = 0;\n\t\t}\n\n', '\t\t// write the total number of cells that will be written\n\t\tconst uint64_t number_of_cells = cells_to_write.empty() ? this->cell_data.size() : cells_to_write.size();\n\t\tconst uint64_t total_number_of_cells\n\t\t\t= All_Reduce()(number_of_cells, this->comm);\n\n\t\tif (write_grid_info) {\n\t\t\tif (this->rank == 0) {\n\t\t\t\tret_val = MPI_File_write_at(\n\t\t\t\t\toutfile,\n\t\t\t\t\toffset,\n\t\t\t\t\t(void*) &total_number_of_cells,\n\t\t\t\t\t1,\n\t\t\t\t\tMPI_UINT64_T,\n\t\t\t\t\tMPI_STATUS_IGNORE\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t write number of cells to file " << name\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\treturn false;\n\t\t\t\t}\n\t\t\t}\n\t\t\toffset += sizeof(uint64_t);\n\t\t}\n\n\t\t// contiguous memory version of cell list needed by MPI_Write_...\n\t\tconst std::vector<uint64_t> cells_to_write_ = cells_to_write.empty() ? this->get_cells() : cells_to_write;\n\t\tif (cells_to_write_.size() != number_of_cells) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Number of cells is inconsistent: " << number_of_cells\n\t\t\t\t<< ", should be " << cells_to_write_.size()\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\n\t\t/*\n\t\tCreate a datatype representing all local cell data in memory\n\t\t*/\n\n\t\tstd::vector<void*> addresses(number_of_cells, NULL);\n\t\tstd::vector<int> counts(number_of_cells, -1);\n\t\tstd::vector<MPI_Datatype> mem_datatypes(number_of_cells, MPI_DATATYPE_NULL);\n\n\t\t// get intermediate datatypes from user\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tconst uint64_t cell = cells_to_write_[i];\n\n\t\t\tstd::tie(\n\t\t\t\taddresses[i],\n\t\t\t\tcounts[i],\n\t\t\t\tmem_datatypes[i]\n\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\tthis->cell_data.at(cell),\n\t\t\t\tcell,\n\t\t\t\t(int) this->rank,\n\t\t\t\t-1,\n\t\t\t\tfalse,\n\t\t\t\t-1\n\t\t\t);\n\t\t}\n\n\t\t// displacements of cell data in memory\n\t\tstd::vector<MPI_Aint> memory_displacements(number_of_cells, 0);\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tmemory_displacements[i] = (uint8_t*) addresses[i] - (uint8_t*) addresses[0];\n\t\t}\n\n\t\t// create datatype representing all local cell data in memory\n\t\tMPI_Datatype memory_datatype;\n\t\tif (number_of_cells == 0) {\n\n\t\t\tmemory_datatype = MPI_BYTE;\n\n\t\t} else {\n\n\t\t\tret_val = MPI_Type_create_struct(\n\t\t\t\tnumber_of_cells,\n\t\t\t\t&counts[0],\n\t\t\t\t&memory_displacements[0],\n\t\t\t\t&mem_datatypes[0],\n\t\t\t\t&memory_datatype\n\t\t\t);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t create final datatype: "\n\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tret_val = MPI_Type_commit(&memory_datatype);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< "Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t commit final datatype: "\n\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t}\n\n\n\t\t/*\n\t\tCreate a datatype representing all local cell data in file\n\t\t*/\n\n\t\t// exclude padding from file data by maybe using contiguous datatypes\n\t\tstd::vector<MPI_Datatype> file_datatypes(mem_datatypes.size(), MPI_DATATYPE_NULL);\n\t\tfor (size_t i = 0; i < mem_datatypes.size(); i++) {\n\t\t\tMPI_Datatype& mem_datatype = mem_datatypes[i];\n\n\t\t\tif (Is_Named_Datatype()(mem_datatype)) {\n\n\t\t\t\tfile_datatypes[i] = mem_datatype;\n\n\t\t\t} else {\n\n\t\t\t\tint size_in_bytes;\n\t\t\t\tret_val = MPI_Type_size(mem_datatypes[i], &size_in_bytes);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t get datatype size: "\n\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val =  MPI_Type_contiguous(size_in_bytes, MPI_BYTE, &(file_datatypes[i]));\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t create contiguous datatype: "\n\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\t// calculate where each local cells\' data starts in the file\n\t\tuint64_t current_byte_offset = 0;\n\n\t\tstd::vector<MPI_Aint> file_displacements(number_of_cells, 0);\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\n\t\t\tfile_displacements[i] += current_byte_offset;\n\n\t\t\tint current_bytes;\n\t\t\tret_val = MPI_Type_size(file_datatypes[i], &current_bytes);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t get size of datatype: " << Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\tif (current_bytes < 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tcurrent_byte_offset += counts[i] * (uint64_t) current_bytes;\n\t\t}\n\n\t\t// tell everyone how many bytes everyone will write\n\t\tstd::vector<uint64_t> all_number_of_bytes(this->comm_size, 0);\n\t\tret_val = MPI_Allgather(\n\t\t\t&current_byte_offset,\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\t&(all_number_of_bytes[0]),\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\tcomm\n\t\t);\n\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< "Process " << this->rank\n\t\t\t\t<< " MPI_Allgather failed: "\n\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\t// calculate where local cell data starts in file\n\t\tuint64_t cell_data_start\n\t\t\t= (uint64_t) offset\n\t\t\t+ 2 * total_number_of_cells * sizeof(uint64_t);\n\t\tif (not write_cell_ids) {\n\t\t\tcell_data_start -= total_number_of_cells * sizeof(uint64_t);\n\t\t}\n\t\tif (not write_data_offsets) {\n\t\t\tcell_data_start -= total_number_of_cells * sizeof(uint64_t);\n\t\t}\n\n\t\tfor (size_t i = 0; i < (size_t) this->rank; i++) {\n\t\t\tcell_data_start += all_number_of_bytes[i];\n\t\t}\n\n\t\t// make file displacements relative to start of file\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tfile_displacements[i] += cell_data_start;\n\t\t}\n\n\n\t\t/*\n\t\tWrite cell list(s)\n\t\t*/\n\n\t\t// tell all processes how many cells each one will write\n\t\tstd::vector<uint64_t> all_number_of_cells(this->comm_size, 0);\n\t\tret_val = MPI_Allgather(\n\t\t\t&number_of_cells,\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\t&(all_number_of_cells[0]),\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\tcomm\n\t\t);\n\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Process " << this->rank\n\t\t\t\t<< " MPI_Allgather failed: " << Error_String()(ret_val)\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\t// calculate where local cell list will begin in output file\n\t\tuint64_t cell_list_start = (uint64_t) offset;\n\t\tfor (size_t i = 0; i < (size_t) this->rank; i++) {\n\t\t\tif (write_cell_ids and write_data_offsets) {\n\t\t\t\tcell_list_start += all_number_of_cells[i] * 2 * sizeof(uint64_t);\n\t\t\t} else if (write_cell_ids or write_data_offsets) {\n\t\t\t\tcell_list_start += all_number_of_cells[i] * sizeof(uint64_t);\n\t\t\t}\n\t\t}\n\n\t\t// write cell + data displacement list\n\t\tstd::vector<uint64_t> cells_and_data_displacements(2 * number_of_cells, 0);\n\t\tuint64_t cell_and_disp_len = 0;\n\t\tif (write_cell_ids and write_data_offsets) {\n\t\t\tcell_and_disp_len = 2 * number_of_cells;\n\t\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\t\tcells_and_data_displacements[2 * i] = cells_to_write_[i];\n\t\t\t\tcells_and_data_displacements[2 * i + 1] = file_displacements[i];\n\t\t\t}\n\t\t} else if (write_cell_ids) {\n\t\t\tcell_and_disp_len = number_of_cells;\n\t\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\t\tcells_and_data_displacements[i] = cells_to_write_[i];\n\t\t\t}\n\t\t} else if (write_data_offsets) {\n\t\t\tcell_and_disp_len = number_of_cells;\n\t\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\t\tcells_and_data_displacements[i] = file_displacements[i];\n\t\t\t}\n\t\t} else {\n\t\t\tcell_and_disp_len = 0;\n\t\t}\n\n'))
same('q-save-list', ('\t\t// write the total number of cells that will be written\n\t\tuint64_t number_of_cells = this->cell_data.size();\n\t\tif (cells_to_write.size() > 0) {\n\t\t\tnumber_of_cells = cells_to_write.size();\n\t\t}\n\t\tconst uint64_t total_number_of_cells\n\t\t\t= All_Reduce()(number_of_cells, this->comm);\n\n\t\tif (write_grid_info) {\n\t\t\tif (this->rank == 0) {\n\t\t\t\tret_val = MPI_File_write_at(\n\t\t\t\t\toutfile,\n\t\t\t\t\toffset,\n\t\t\t\t\t(void*) &total_number_of_cells,\n\t\t\t\t\t1,\n\t\t\t\t\tMPI_UINT64_T,\n\t\t\t\t\tMPI_STATUS_IGNORE\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t write number of cells to file " << name\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\treturn false;\n\t\t\t\t}\n\t\t\t}\n\t\t\toffset += sizeof(uint64_t);\n\t\t}\n\n\t\t// contiguous memory version of cell list needed by MPI_Write_...\n\t\tauto cells_to_write_ = cells_to_write;\n\t\tif (cells_to_write_.size() == 0) {\n\t\t\tcells_to_write_ = this->get_cells();\n\t\t}\n\t\tif (cells_to_write_.size() != number_of_cells) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Number of cells is inconsistent: " << number_of_cells\n\t\t\t\t<< ", should be " << cells_to_write_.size()\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\n\t\t/*\n\t\tCreate a datatype representing all local cell data in memory\n\t\t*/\n\n\t\tstd::vector<void*> addresses(number_of_cells, NULL);\n\t\tstd::vector<int> counts(number_of_cells, -1);\n\t\tstd::vector<MPI_Datatype> mem_datatypes(number_of_cells, MPI_DATATYPE_NULL);\n\n\t\t// get intermediate datatypes from user\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tconst uint64_t cell = cells_to_write_[i];\n\n\t\t\tstd::tie(\n\t\t\t\taddresses[i],\n\t\t\t\tcounts[i],\n\t\t\t\tmem_datatypes[i]\n\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\tthis->cell_data.at(cell),\n\t\t\t\tcell,\n\t\t\t\t(int) this->rank,\n\t\t\t\t-1,\n\t\t\t\tfalse,\n\t\t\t\t-1\n\t\t\t);\n\t\t}\n\n\t\t// displacements of cell data in memory\n\t\tstd::vector<MPI_Aint> memory_displacements(number_of_cells, 0);\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tmemory_displacements[i] = (uint8_t*) addresses[i] - (uint8_t*) addresses[0];\n\t\t}\n\n\t\t// create datatype representing all local cell data in memory\n\t\tMPI_Datatype memory_datatype;\n\t\tif (number_of_cells == 0) {\n\n\t\t\tmemory_datatype = MPI_BYTE;\n\n\t\t} else {\n\n\t\t\tret_val = MPI_Type_create_struct(\n\t\t\t\tnumber_of_cells,\n\t\t\t\t&counts[0],\n\t\t\t\t&memory_displacements[0],\n\t\t\t\t&mem_datatypes[0],\n\t\t\t\t&memory_datatype\n\t\t\t);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t create final datatype: "\n\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tret_val = MPI_Type_commit(&memory_datatype);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< "Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t commit final datatype: "\n\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t}\n\n\n\t\t/*\n\t\tCreate a datatype representing all local cell data in file\n\t\t*/\n\n\t\t// exclude padding from file data by maybe using contiguous datatypes\n\t\tstd::vector<MPI_Datatype> file_datatypes(mem_datatypes.size(), MPI_DATATYPE_NULL);\n\t\tfor (size_t i = 0; i < mem_datatypes.size(); i++) {\n\t\t\tMPI_Datatype& mem_datatype = mem_datatypes[i];\n\n\t\t\tif (Is_Named_Datatype()(mem_datatype)) {\n\n\t\t\t\tfile_datatypes[i] = mem_datatype;\n\n\t\t\t} else {\n\n\t\t\t\tint size_in_bytes;\n\t\t\t\tret_val = MPI_Type_size(mem_datatypes[i], &size_in_bytes);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t get datatype size: "\n\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val =  MPI_Type_contiguous(size_in_bytes, MPI_BYTE, &(file_datatypes[i]));\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t create contiguous datatype: "\n\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\t// calculate where each local cells\' data starts in the file\n\t\tuint64_t current_byte_offset = 0;\n\n\t\tstd::vector<MPI_Aint> file_displacements(number_of_cells, 0);\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\n\t\t\tfile_displacements[i] += current_byte_offset;\n\n\t\t\tint current_bytes;\n\t\t\tret_val = MPI_Type_size(file_datatypes[i], &current_bytes);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t get size of datatype: " << Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\tif (current_bytes < 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tcurrent_byte_offset += counts[i] * (uint64_t) current_bytes;\n\t\t}\n\n\t\t// tell everyone how many bytes everyone will write\n\t\tstd::vector<uint64_t> all_number_of_bytes(this->comm_size, 0);\n\t\tret_val = MPI_Allgather(\n\t\t\t&current_byte_offset,\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\t&(all_number_of_bytes[0]),\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\tcomm\n\t\t);\n\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< "Process " << this->rank\n\t\t\t\t<< " MPI_Allgather failed: "\n\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\t// calculate where local cell data starts in file\n\t\tuint64_t cell_data_start\n\t\t\t= (uint64_t) offset\n\t\t\t+ 2 * total_number_of_cells * sizeof(uint64_t);\n\t\tif (not write_cell_ids) {\n\t\t\tcell_data_start -= total_number_of_cells * sizeof(uint64_t);\n\t\t}\n\t\tif (not write_data_offsets) {\n\t\t\tcell_data_start -= total_number_of_cells * sizeof(uint64_t);\n\t\t}\n\n\t\tfor (size_t i = 0; i < (size_t) this->rank; i++) {\n\t\t\tcell_data_start += all_number_of_bytes[i];\n\t\t}\n\n\t\t// make file displacements relative to start of file\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tfile_displacements[i] += cell_data_start;\n\t\t}\n\n\n\t\t/*\n\t\tWrite cell list(s)\n\t\t*/\n\n\t\t// tell all processes how many cells each one will write\n\t\tstd::vector<uint64_t> all_number_of_cells(this->comm_size, 0);\n\t\tret_val = MPI_Allgather(\n\t\t\t&number_of_cells,\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\t&(all_number_of_cells[0]),\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\tcomm\n\t\t);\n\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Process " << this->rank\n\t\t\t\t<< " MPI_Allgather failed: " << Error_String()(ret_val)\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\t// calculate where local cell list will begin in output file\n\t\tuint64_t cell_list_start = (uint64_t) offset;\n\t\tfor (size_t i = 0; i < (size_t) this->rank; i++) {\n\t\t\tif (write_cell_ids and write_data_offsets) {\n\t\t\t\tcell_list_start += all_number_of_cells[i] * 2 * sizeof(uint64_t);\n\t\t\t} else if (write_cell_ids or write_data_offsets) {\n\t\t\t\tcell_list_start += all_number_of_cells[i] * sizeof(uint64_t);\n\t\t\t}\n\t\t}\n\n\t\t// write cell + data displacement list\n\t\tstd::vector<uint64_t> cells_and_data_displacements(2 * number_of_cells, 0);\n\t\tuint64_t cell_and_disp_len = 0;\n\t\tif (write_cell_ids and write_data_offsets) {\n\t\t\tcell_and_disp_len = 2 * number_of_cells;\n\t\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\t\tcells_and_data_displacements[2 * i] = cells_to_write_[i];\n\t\t\t\tcells_and_data_displacements[2 * i + 1] = file_displacements[i];\n\t\t\t}\n\t\t} else if (write_cell_ids) {\n\t\t\tcell_and_disp_len = number_of_cells;\n\t\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\t\tcells_and_data_displacements[i] = cells_to_write_[i];\n\t\t\t}\n\t\t} else if (write_data_offsets) {\n\t\t\tcell_and_disp_len = number_of_cells;\n\t\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\t\tcells_and_data_displacements[i] = file_displacements[i];\n\t\t\t}\n\t\t} else {\n\t\t\tcell_and_disp_len = 0;\n\t\t}\n\n', '\t\t// write the total number of cells that will be written\n\t\tuint64_t number_of_cells = this->cell_data.size();\n\t\tif (cells_to_write.size() > 0) {\n\t\t\tnumber_of_cells = cells_to_write.size();\n\t\t}\n\t\tconst uint64_t total_number_of_cells\n\t\t\t= All_Reduce()(number_of_cells, this->comm);\n\n\t\tif (write_grid_info) {\n\t\t\tif (this->rank == 0) {\n\t\t\t\tret_val = MPI_File_write_at(\n\t\t\t\t\toutfile,\n\t\t\t\t\toffset,\n\t\t\t\t\t(void*) &total_number_of_cells,\n\t\t\t\t\t1,\n\t\t\t\t\tMPI_UINT64_T,\n\t\t\t\t\tMPI_STATUS_IGNORE\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t write number of cells to file " << name\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\treturn false;\n\t\t\t\t}\n\t\t\t}\n\t\t\toffset += sizeof(uint64_t);\n\t\t}\n\n\t\t// contiguous memory version of cell list needed by MPI_Write_...\n\t\tauto cells_to_write_ = cells_to_write;\n\t\tif (cells_to_write_.size() == 0) {\n\t\t\tcells_to_write_ = this->get_cells();\n\t\t}\n\t\tif (cells_to_write_.size() != number_of_cells) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Number of cells is inconsistent: " << number_of_cells\n\t\t\t\t<< ", should be " << cells_to_write_.size()\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\n\t\t/*\n\t\tCreate a datatype representing all local cell data in memory\n\t\t*/\n\n\t\tstd::vector<void*> addresses(number_of_cells, NULL);\n\t\tstd::vector<int> counts(number_of_cells, -1);\n\t\tstd::vector<MPI_Datatype> mem_datatypes(number_of_cells, MPI_DATATYPE_NULL);\n\n\t\t// get intermediate datatypes from user\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tconst uint64_t cell = cells_to_write_[i];\n\n\t\t\tstd::tie(\n\t\t\t\taddresses[i],\n\t\t\t\tcounts[i],\n\t\t\t\tmem_datatypes[i]\n\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\tthis->cell_data.at(cell),\n\t\t\t\tcell,\n\t\t\t\t(int) this->rank,\n\t\t\t\t-1,\n\t\t\t\tfalse,\n\t\t\t\t-1\n\t\t\t);\n\t\t}\n\n\t\t// displacements of cell data in memory\n\t\tstd::vector<MPI_Aint> memory_displacements(number_of_cells, 0);\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tmemory_displacements[i] = (uint8_t*) addresses[i] - (uint8_t*) addresses[0];\n\t\t}\n\n\t\t// create datatype representing all local cell data in memory\n\t\tMPI_Datatype memory_datatype;\n\t\tif (number_of_cells == 0) {\n\n\t\t\tmemory_datatype = MPI_BYTE;\n\n\t\t} else {\n\n\t\t\tret_val = MPI_Type_create_struct(\n\t\t\t\tnumber_of_cells,\n\t\t\t\t&counts[0],\n\t\t\t\t&memory_displacements[0],\n\t\t\t\t&mem_datatypes[0],\n\t\t\t\t&memory_datatype\n\t\t\t);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t create final datatype: "\n\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tret_val = MPI_Type_commit(&memory_datatype);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< "Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t commit final datatype: "\n\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t}\n\n\n\t\t/*\n\t\tCreate a datatype representing all local cell data in file\n\t\t*/\n\n\t\t// exclude padding from file data by maybe using contiguous datatypes\n\t\tstd::vector<MPI_Datatype> file_datatypes(mem_datatypes.size(), MPI_DATATYPE_NULL);\n\t\tfor (size_t i = 0; i < mem_datatypes.size(); i++) {\n\t\t\tMPI_Datatype& mem_datatype = mem_datatypes[i];\n\n\t\t\tif (Is_Named_Datatype()(mem_datatype)) {\n\n\t\t\t\tfile_datatypes[i] = mem_datatype;\n\n\t\t\t} else {\n\n\t\t\t\tint size_in_bytes;\n\t\t\t\tret_val = MPI_Type_size(mem_datatypes[i], &size_in_bytes);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t get datatype size: "\n\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val =  MPI_Type_contiguous(size_in_bytes, MPI_BYTE, &(file_datatypes[i]));\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t create contiguous datatype: "\n\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\t// calculate where each local cells\' data starts in the file\n\t\tuint64_t current_byte_offset = 0;\n\n\t\tstd::vector<MPI_Aint> file_displacements(number_of_cells, 0);\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\n\t\t\tfile_displacements[i] += current_byte_offset;\n\n\t\t\tint current_bytes;\n\t\t\tret_val = MPI_Type_size(file_datatypes[i], &current_bytes);\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t<< " Couldn\'t get size of datatype: " << Error_String()(ret_val)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\tif (current_bytes < 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tcurrent_byte_offset += counts[i] * (uint64_t) current_bytes;\n\t\t}\n\n\t\t// tell everyone how many bytes everyone will write\n\t\tstd::vector<uint64_t> all_number_of_bytes(this->comm_size, 0);\n\t\tret_val = MPI_Allgather(\n\t\t\t&current_byte_offset,\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\t&(all_number_of_bytes[0]),\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\tcomm\n\t\t);\n\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< "Process " << this->rank\n\t\t\t\t<< " MPI_Allgather failed: "\n\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\t// calculate where local cell data starts in file\n\t\tuint64_t cell_data_start\n\t\t\t= (uint64_t) offset\n\t\t\t+ 2 * total_number_of_cells * sizeof(uint64_t);\n\t\tif (not write_cell_ids) {\n\t\t\tcell_data_start -= total_number_of_cells * sizeof(uint64_t);\n\t\t}\n\t\tif (not write_data_offsets) {\n\t\t\tcell_data_start -= total_number_of_cells * sizeof(uint64_t);\n\t\t}\n\n\t\tfor (size_t i = 0; i < (size_t) this->rank; i++) {\n\t\t\tcell_data_start += all_number_of_bytes[i];\n\t\t}\n\n\t\t// make file displacements relative to start of file\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tfile_displacements[i] += cell_data_start;\n\t\t}\n\n\n\t\t/*\n\t\tWrite cell list(s)\n\t\t*/\n\n\t\t// tell all processes how many cells each one will write\n\t\tstd::vector<uint64_t> all_number_of_cells(this->comm_size, 0);\n\t\tret_val = MPI_Allgather(\n\t\t\t&number_of_cells,\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\t&(all_number_of_cells[0]),\n\t\t\t1,\n\t\t\tMPI_UINT64_T,\n\t\t\tcomm\n\t\t);\n\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Process " << this->rank\n\t\t\t\t<< " MPI_Allgather failed: " << Error_String()(ret_val)\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\t// calculate where local cell list will begin in output file\n\t\tuint64_t cell_list_start = (uint64_t) offset;\n\t\tfor (size_t i = 0; i < (size_t) this->rank; i++) {\n\t\t\tif (write_cell_ids and write_data_offsets) {\n\t\t\t\tcell_list_start += all_number_of_cells[i] * 2 * sizeof(uint64_t);\n\t\t\t} else if (write_cell_ids or write_data_offsets) {\n\t\t\t\tcell_list_start += all_number_of_cells[i] * sizeof(uint64_t);\n\t\t\t}\n\t\t}\n\n\t\t// write cell + data displacement list\n\t\tstd::vector<uint64_t> cells_and_data_displacements(2 * number_of_cells, 0);\n\t\tuint64_t cell_and_disp_len = 0;\n\t\tsize_t next = 0;\n\t\tfor (size_t i = 0; i < number_of_cells; i++) {\n\t\t\tif (write_cell_ids) {\n\t\t\t\tcells_and_data_displacements[next] = cells_to_write_[i];\n\t\t\t\tnext++;\n\t\t\t}\n\t\t\tif (write_data_offsets) {\n\t\t\t\tcells_and_data_displacements[next] = file_displacements[i];\n\t\t\t\tnext++;\n\t\t\t}\n\t\t}\n\t\tcell_and_disp_len = next;\n\n'))
same('q-fb-order', ('\t>& finish_balance_load()\n\t{\n\t\t#ifndef DCCRG_NO_LB\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tif (!this->balancing_load) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " finish_balance_load() called without "\n\t\t\t\t<< "calling initialize_balance_load(...) first."\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\n\t\t/*\n\t\tCalculate where cells have migrated to update internal data structures\n\t\t*/\n\n\t\t// removed cells on all processes\n\t\tstd::vector<uint64_t> temp_removed_cells(\n\t\t\tthis->removed_cells.begin(),\n\t\t\tthis->removed_cells.end()\n\t\t);\n\n\t\t// created cells on all processes\n\t\tstd::vector<uint64_t> temp_added_cells(\n\t\t\tthis->added_cells.begin(),\n\t\t\tthis->added_cells.end()\n\t\t);\n\n\t\tstd::vector<std::vector<uint64_t>> all_added_cells;\n\t\tAll_Gather()(temp_added_cells, all_added_cells, this->comm);\n\n\t\t#ifdef DEBUG\n\t\tstd::vector<std::vector<uint64_t> > all_removed_cells;\n\t\tAll_Gather()(temp_removed_cells, all_removed_cells, this->comm);\n\n\t\t// check that there are no duplicate adds / removes\n\t\tstd::unordered_set<uint64_t> all_adds, all_removes;\n\n\t\tfor (const auto& item: all_removed_cells) {\n\t\t\tfor (const uint64_t removed_cell: item) {\n\n\t\t\t\tif (all_removes.count(removed_cell) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << removed_cell\n\t\t\t\t\t\t<< " was already removed"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tall_removes.insert(removed_cell);\n\t\t\t}\n\t\t}\n\n\t\tfor (const auto& item: all_added_cells) {\n\t\t\tfor (const uint64_t added_cell: item) {\n\n\t\t\t\tif (all_adds.count(added_cell) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << added_cell\n\t\t\t\t\t\t<< " was already removed"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tall_adds.insert(added_cell);\n\t\t\t}\n\t\t}\n\n\t\t// check that cells were removed by their process\n\t\tfor (uint64_t cell_remover = 0; cell_remover < all_removed_cells.size(); cell_remover++) {\n\n\t\t\tfor (const uint64_t removed_cell: all_removed_cells.at(cell_remover)) {\n\n\t\t\t\tif (this->cell_process.at(removed_cell) != cell_remover) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << removed_cell\n\t\t\t\t\t\t<< " doesn\'t belong to process " << cell_remover\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t\t#endif\n\n\t\t// update cell to process mappings\n\t\tfor (uint64_t cell_creator = 0; cell_creator < all_added_cells.size(); cell_creator++) {\n\n\t\t\tfor (const uint64_t created_cell: all_added_cells.at(cell_creator)) {\n\t\t\t\tthis->cell_process.at(created_cell) = cell_creator;\n\t\t\t}\n\t\t}\n\n\t\t#ifdef DEBUG\n\t\tif (!this->is_consistent()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Grid is not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->pin_requests_succeeded()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Pin requests didn\'t succeed"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\t\t#endif\n\n\t\tthis->update_neighbors_();\n\n\t\tthis->update_neighbors();\n\t\tfor (const auto& h: this->user_hood_of) {\n\t\t\tthis->user_neigh_of.at(h.first).clear();\n\t\t\tthis->user_neigh_to.at(h.first).clear();\n\t\t}\n\t\tfor (const auto& i: this->cell_process) {\n\t\t\tfor (const auto& j: this->user_hood_of) {\n\t\t\t\tthis->update_user_neighbors(i.first, j.first);\n\t\t\t}\n\t\t}\n\n\t\t// free user data of cells removed from this process\n\t\tfor (const uint64_t removed_cell: this->removed_cells) {\n\t\t\tthis->cell_data.erase(removed_cell);\n\t\t}\n\n\t\tthis->update_remote_neighbor_info();\n\t\t// also remote neighbor info of user neighborhoods\n\t\tfor (std::unordered_map<int, std::vector<Types<3>::neighborhood_item_t>>::const_iterator\n\t\t\titem = this->user_hood_of.begin();\n\t\t\titem != this->user_hood_of.end();\n\t\t\titem++\n\t\t) {\n\t\t\tthis->update_user_remote_neighbor_info(item->first);\n\t\t}\n\n\t\tthis->recalculate_neighbor_update_send_receive_lists();\n\n\t\tthis->allocate_copies_of_remote_neighbors();\n\n\t\ttry {\n\t\t\tthis->update_cell_pointers(\n\t\t\t\tthis->cells_rw,\n\t\t\t\tthis->neighbors_rw,\n\t\t\t\tthis->inner_cells_default,\n\t\t\t\tthis->outer_cells_default,\n\t\t\t\tthis->local_cells_default,\n\t\t\t\tthis->remote_cells_default,\n\t\t\t\tthis->all_cells_default,\n\t\t\t\tdefault_neighborhood_id\n\t\t\t);\n\t\t} catch (...) {\n\t\t\tthrow std::runtime_error(__FILE__ "(" + std::to_string(__LINE__) + ")");\n\t\t}\n\t\tfor (const auto& item: this->user_hood_of) {\n\t\t\tthis->update_cell_pointers_user(item.first);\n\t\t}\n\n\t\t#ifdef DEBUG\n\t\tif (!this->is_consistent()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " The grid is inconsistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_neighbors()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Neighbor lists are incorrect"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_remote_neighbor_info()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Remote neighbor info is not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_user_data()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " User data not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\t\t#endif\n\n\t\tthis->added_cells.clear();\n\t\tthis->removed_cells.clear();\n\t\tthis->balancing_load = false;\n\n\t\t#endif // ifndef DCCRG_NO_LB\n\t\treturn *this;\n\t}\n\n\n\t/*!\n\tReturns the parent of given cell.\n\n\tIf parent exists returns it,\n\totherwise if given cell exists returns it,\n\totherwise returns error_cell.\n\t*/\n\tuint64_t get_parent(const uint64_t cell) const\n\t{\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t// given cell cannot have a parent\n\t\tif (this->mapping.get_refinement_level(cell) == 0) {\n\t\t\tif (this->cell_process.count(cell) > 0) {\n\t\t\t\treturn cell;\n\t\t\t} else {\n\t\t\t\t return error_cell;\n\t\t\t}\n\t\t}\n\n\t\tconst uint64_t parent = this->mapping.get_cell_from_indices(\n\t\t\tthis->mapping.get_indices(cell),\n\t\t\tthis->mapping.get_refinement_level(cell) - 1\n\t\t);\n\n\t\tif (this->cell_process.count(parent) > 0) {\n\t\t\treturn parent;\n\t\t}\n\t\tif (this->cell_process.count(cell) > 0) {\n\t\t\treturn cell;\n\t\t}\n\n\t\treturn error_cell;\n\t}\n\n\n\t/*!\n\tReturns the indices corresponding to the given neighborhood at given indices.\n\n\tNeighborhood is returned in units of length_in_indices.\n\tIf grid is not periodic in some direction then indices which would fall outside\n\tof the grid in that direction are returned as error_index.\n\t*/\n\tstd::vector<Types<3>::indices_t> indices_from_neighborhood(\n\t\tconst Types<3>::indices_t indices,\n\t\tconst uint64_t length_in_indices,\n\t\tconst std::vector<Types<3>::neighborhood_item_t>& neighborhood\n\t) const {\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t// TODO: make neighborhood a const reference\n\t\tstd::vector<Types<3>::indices_t> return_indices;\n\t\treturn_indices.reserve(neighborhood.size());\n\n\t\t// grid length in indices\n\t\tconst uint64_t grid_length[3] = {\n\t\t\tthis->length.get()[0] * (uint64_t(1) << this->mapping.get_maximum_refinement_level()),\n\t\t\tthis->length.get()[1] * (uint64_t(1) << this->mapping.get_maximum_refinement_level()),\n\t\t\tthis->length.get()[2] * (uint64_t(1) << this->mapping.get_maximum_refinement_level())\n\t\t};\n\n\t\t#ifdef DEBUG\n\t\tfor (unsigned int dimension = 0; dimension < 3; dimension++) {\n\t\t\tif (indices[dimension] >= grid_length[dimension]) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Given indices outside of the grid in dimension " << dimension\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t}\n\t\t#endif\n\n\t\tfor (const auto& offsets: neighborhood) {\n\n\t\t\tTypes<3>::indices_t temp_indices = {{indices[0], indices[1], indices[2]}};\n\n\t\t\tfor (unsigned int dimension = 0; dimension < 3; dimension++) {\n\t\t\t\tif (offsets[dimension] < 0) {\n\n\t\t\t\t\tif (this->topology.is_periodic(dimension)) {\n\n\t\t\t\t\t\t// neighborhood might wrap around the grid several times\n\t\t\t\t\t\tfor (int i = 0; i > offsets[dimension]; i--) {\n\n\t\t\t\t\t\t\t#ifdef DEBUG\n\t\t\t\t\t\t\tif (temp_indices[dimension] < length_in_indices - 1\n\t\t\t\t\t\t\t&& temp_indices[dimension] > 0) {\n\t\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t\t<< " Cells aren\'t supposed to wrap around the grid."\n\t\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\t#endif\n\n\t\t\t\t\t\t\tif (temp_indices[dimension] >= length_in_indices) {\n\t\t\t\t\t\t\t\ttemp_indices[dimension] -= length_in_indices;\n\t\t\t\t\t\t\t} else {\n\t\t\t\t\t\t\t\ttemp_indices[dimension] = grid_length[dimension] - length_in_indices;\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n\t\t\t\t\t// use error_indices to signal that this neighborhood item is outside of the grid\n\t\t\t\t\t} else {\n\t\t\t\t\t\tif (indices[dimension] < abs(offsets[dimension]) * length_in_indices) {\n\t\t\t\t\t\t\ttemp_indices[0] = error_index;\n\t\t\t\t\t\t\ttemp_indices[1] = error_index;\n\t\t\t\t\t\t\ttemp_indices[2] = error_index;\n\t\t\t\t\t\t\tbreak;\n\t\t\t\t\t\t}\n\n\t\t\t\t\t\ttemp_indices[dimension] += offsets[dimension] * length_in_indices;\n\t\t\t\t\t}\n\n\t\t\t\t} else {\n\n\t\t\t\t\tif (this->topology.is_periodic(dimension)) {\n\t\t\t\t\t\tfor (int i = 0; i < offsets[dimension]; i++) {\n\n\t\t\t\t\t\t\t#ifdef DEBUG\n\t\t\t\t\t\t\tif (temp_indices[dimension] > grid_length[dimension] - length_in_indices) {\n\t\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t\t<< " Cells aren\'t supposed to wrap around the grid."\n\t\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\t#endif\n\n\t\t\t\t\t\t\tif (temp_indices[dimension] < grid_length[dimension] - length_in_indices) {\n\t\t\t\t\t\t\t\ttemp_indices[dimension] += length_in_indices;\n\t\t\t\t\t\t\t} else {\n\t\t\t\t\t\t\t\ttemp_indices[dimension] = 0;\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n\t\t\t\t\t} else {\n\t\t\t\t\t\tif (\n\t\t\t\t\t\t\tindices[dimension] + offsets[dimension] * length_in_indices\n\t\t\t\t\t\t\t>= grid_length[dimension]\n\t\t\t\t\t\t) {\n\t\t\t\t\t\t\ttemp_indices[0] = error_index;\n\t\t\t\t\t\t\ttemp_indices[1] = error_index;\n\t\t\t\t\t\t\ttemp_indices[2] = error_index;\n\t\t\t\t\t\t\tbreak;\n\t\t\t\t\t\t}\n\n\t\t\t\t\t\ttemp_indices[dimension] += offsets[dimension] * length_in_indices;\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\n\t\t\treturn_indices.push_back(temp_indices);\n\t\t}\n\n\t\treturn return_indices;\n\t}\n\n\n\t/*!\n\tReturns neighbors of given cell based on given neighborhood.\n\n\tSame neighbor appears once for each neighborhood item.\n\tFor example in one cell grid priodic in all dimensions\n\twith neighborhood size 1 the cell itself will appear\n\t26 times at various offsets.\n\n\tIf given cell owned by another process, returned\n\tneighbors might not be complete.\n\n\tThrows if given cell isn\'t known to this process or\n\tif given error_cell.\n\t*/\n\t// TODO: make private?\n\tstd::vector<\n\t\tstd::pair<\n\t\t\tuint64_t,\n\t\t\tstd::array<int, 3> // x, y, z offsets\n\t\t>\n\t> find_neighbors_of(\n\t\tuint64_t cell,\n\t\tconst std::vector<std::array<int, 3>>& neighborhood\n\t) const {\n\t\tusing std::to_string;\n\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tif (\n\t\t\tcell == error_cell\n\t\t\tor this->cell_process.count(cell) == 0\n\t\t) {\n\t\t\tthrow std::runtime_error(\n\t\t\t\t__FILE__ "(" + to_string(__LINE__) + ")"\n\t\t\t\t"Invalid cell: " + to_string(cell)\n\t\t\t);\n\t\t}\n\n\t\t// convert to int to reduce verbosity later\n\t\tconst auto get_len_int = [&](const uint64_t cell_)->int {\n\t\t\tconst auto len = this->mapping.get_cell_length_in_indices(cell_);\n\t\t\tif (len > std::numeric_limits<int>::max()) {\n\t\t\t\tthrow std::overflow_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + "): "\n\t\t\t\t\t+ to_string(cell_) + ", " + to_string(len)\n\t\t\t\t);\n\t\t\t}\n\t\t\treturn len;\n\t\t};\n\t\tconst int cell_length = get_len_int(cell);\n\n\t\tif (this->neighbors_.count(cell) == 0) {\n\t\t\tthrow std::runtime_error(\n\t\t\t\t__FILE__ "(" + std::to_string(__LINE__) + "): " + to_string(cell)\n\t\t\t);\n\t\t}\n\n\t\t// offset from cell_ to its parent or 0 if not applicable\n\t\tconst auto get_parent_offset = [&](const uint64_t cell_)->std::array<int, 3> {\n\t\t\tstd::array<int, 3> ret_val{0, 0, 0};\n\t\t\tconst auto parent = this->mapping.get_parent(cell_);\n\t\t\tif (parent == error_cell or parent == cell_) {\n\t\t\t\treturn ret_val;\n\t\t\t}\n\t\t\tconst auto\n\t\t\t\tcell_ind = this->mapping.get_indices(cell_),\n\t\t\t\tpar_ind = this->mapping.get_indices(parent);\n\t\t\t// no need to consider grid periodicity\n\t\t\tfor (size_t dim = 0; dim < 3; dim++) {\n\t\t\t\tif (par_ind[dim] >= cell_ind[dim]) {\n\t\t\t\t\tret_val[dim] += (int)(par_ind[dim] - cell_ind[dim]);\n\t\t\t\t} else {\n\t\t\t\t\tret_val[dim] -= (int)(cell_ind[dim] - par_ind[dim]);\n\t\t\t\t}\n\t\t\t}\n\t\t\treturn ret_val;\n\t\t};\n\n\t\t// TODO: split into function\n\t\tconst auto adjust_offset = [&](\n\t\t\tstd::array<int, 3> offset,\n\t\t\tconst uint64_t from,\n\t\t\tconst uint64_t to,\n\t\t\tconst int direction\n\t\t)->std::array<int, 3> {\n\t\t\tconst auto\n\t\t\t\tfrom_len = get_len_int(from),\n\t\t\t\tto_len = get_len_int(to);\n\n\t\t\tswitch(direction) {\n\t\t\tcase -1:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[0] -= from_len;\n\t\t\t\t// adjust offset if neighbor of different size\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0] - to_len;\n\t\t\t\t\t\toffset[1] += par_off[1];\n\t\t\t\t\t\toffset[2] += par_off[2];\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0] + from_len;\n\t\t\t\t\t\toffset[1] -= par_off[1];\n\t\t\t\t\t\toffset[2] -= par_off[2];\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tcase +1:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[0] += from_len;\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0] + to_len;\n\t\t\t\t\t\toffset[1] += par_off[1];\n\t\t\t\t\t\toffset[2] += par_off[2];\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0] - from_len;\n\t\t\t\t\t\toffset[1] -= par_off[1];\n\t\t\t\t\t\toffset[2] -= par_off[2];\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tcase -2:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[1] -= from_len;\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0];\n\t\t\t\t\t\toffset[1] += par_off[1] - to_len;\n\t\t\t\t\t\toffset[2] += par_off[2];\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0];\n\t\t\t\t\t\toffset[1] -= par_off[1] + from_len;\n\t\t\t\t\t\toffset[2] -= par_off[2];\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tcase +2:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[1] += from_len;\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0];\n\t\t\t\t\t\toffset[1] += par_off[1] + to_len;\n\t\t\t\t\t\toffset[2] += par_off[2];\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0];\n\t\t\t\t\t\toffset[1] -= par_off[1] - from_len;\n\t\t\t\t\t\toffset[2] -= par_off[2];\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tcase -3:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[2] -= from_len;\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0];\n\t\t\t\t\t\toffset[1] += par_off[1];\n\t\t\t\t\t\toffset[2] += par_off[2] - to_len;\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0];\n\t\t\t\t\t\toffset[1] -= par_off[1];\n\t\t\t\t\t\toffset[2] -= par_off[2] + from_len;\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tcase +3:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[2] += from_len;\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0];\n\t\t\t\t\t\toffset[1] += par_off[1];\n\t\t\t\t\t\toffset[2] += par_off[2] + to_len;\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0];\n\t\t\t\t\t\toffset[1] -= par_off[1];\n\t\t\t\t\t\toffset[2] -= par_off[2] - from_len;\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tdefault:\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "("\n\t\t\t\t\t+ std::to_string(__LINE__) + ") "\n\t\t\t\t\t+ std::to_string(direction)\n\t\t\t\t);\n\t\t\t}\n\t\t\treturn offset;\n\t\t};\n\n\t\tstd::vector<std::pair<uint64_t, std::array<int, 3>>> return_neighbors;\n\n\t\tfor (const auto& hood: neighborhood) {\n\t\t\t// find neighbors within these offsets of indices\n\t\t\tconst std::array<int, 3>\n\t\t\t\toff_start{\n\t\t\t\t\thood[0] * cell_length,\n\t\t\t\t\thood[1] * cell_length,\n\t\t\t\t\thood[2] * cell_length\n\t\t\t\t},\n\t\t\t\toff_end{\n\t\t\t\t\t(hood[0] + 1) * cell_length - 1,\n\t\t\t\t\t(hood[1] + 1) * cell_length - 1,\n\t\t\t\t\t(hood[2] + 1) * cell_length - 1\n\t\t\t\t};\n\n\t\t\tstd::array<int, 3> offset{0, 0, 0};\n\t\t\t// find a cell within required offsets\n\t\t\tuint64_t current = cell;\n\t\t\tint curr_len = get_len_int(current);\n\t\t\twhile (\n\t\t\t\t   offset[0] + curr_len - 1 < off_start[0] or offset[0] > off_end[0]\n\t\t\t\tor offset[1] + curr_len - 1 < off_start[1] or offset[1] > off_end[1]\n\t\t\t\tor offset[2] + curr_len - 1 < off_start[2] or offset[2] > off_end[2]\n\t\t\t) {\n\t\t\t\tif (this->neighbors_.count(current) == 0) {\n\t\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + ") "\n\t\t\t\t\t\t"No neighbors_ for cell " + to_string(current)\n\t\t\t\t\t);\n\t\t\t\t}\n\t\t\t\tconst auto& neighs = this->neighbors_.at(current);\n\n\t\t\t\tif (offset[0] > off_end[0]) {\n\t\t\t\t\tif (neighs[0] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[0], -1);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[0];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tif (offset[0] + curr_len - 1 < off_start[0]) {\n\t\t\t\t\tif (neighs[1] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[1], +1);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[1];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (offset[1] > off_end[1]) {\n\t\t\t\t\tif (neighs[2] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[2], -2);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[2];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tif (offset[1] + curr_len - 1 < off_start[1]) {\n\t\t\t\t\tif (neighs[3] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[3], +2);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[3];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (offset[2] > off_end[2]) {\n\t\t\t\t\tif (neighs[4] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[4], -3);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[4];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tif (offset[2] + curr_len - 1 < off_start[2]) {\n\t\t\t\t\tif (neighs[5] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[5], +3);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[5];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + "): Internal error");\n\t\t\t}\n\n\t\t\tif (current == error_cell) {\n\t\t\t\tcontinue;\n\t\t\t}\n\n\t\t\tcurr_len = get_len_int(current);\n\t\t\tif (curr_len >= cell_length) {\n\t\t\t\treturn_neighbors.emplace_back(current, offset);\n\t\t\t\tcontinue;\n\t\t\t}\n\n\t\t\t// also add siblings\n\t\t\tconst auto siblings = this->mapping.get_siblings(current);\n\t\t\tsize_t current_i = 0;\n\t\t\tfor (; current_i < siblings.size(); current_i++) {\n\t\t\t\tif (current == siblings[current_i]) {\n\t\t\t\t\tbreak;\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tif (current_i >= siblings.size() or current != siblings[current_i]) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + "): Internal error");\n\t\t\t}\n\n\t\t\t// adjust offset to sibling closest to 0,0,0\n\t\t\tif (current_i % 2 > 0) {\n\t\t\t\toffset[0] -= curr_len;\n\t\t\t}\n\t\t\tif (current_i % 4 > 1) {\n\t\t\t\toffset[1] -= curr_len;\n\t\t\t}\n\t\t\tif (current_i > 3) {\n\t\t\t\toffset[2] -= curr_len;\n\t\t\t}\n\n\t\t\tsize_t i = 0;\n\t\t\tfor (auto off_z: {0, curr_len}) {\n\t\t\tfor (auto off_y: {0, curr_len}) {\n\t\t\tfor (auto off_x: {0, curr_len}) {\n\t\t\t\treturn_neighbors.push_back({\n\t\t\t\t\tsiblings[i++],\n\t\t\t\t\t{offset[0] + off_x, offset[1] + off_y, offset[2] + off_z}\n\t\t\t\t});\n\t\t\t}}}\n\t\t}\n\n\t\treturn return_neighbors;\n\t}\n\n\n\n\t/*!\n\tReturns cells that consider given cell as a neighbor.\n\n\tIf given cell is owned by another process returned\n\tneighbors_to might not be complete.\n\n\tReturns nothing in following cases:\n\t\t- current process doesn\'t know about given cell\n\t\t- given error_cell\n\n\tReturned cells are not in any particular order.\n\n\tReturned offset are all 0.\n\n\tReturned cells are unique, i.e. each cell only appears once.\n\n\tAssumes a maximum refinement level difference of one between neighbors\n\t(both cases: neighbors_of, neighbors_to).\n\t*/\n\tstd::vector<\n\t\tstd::pair<\n\t\t\tuint64_t,\n\t\t\tstd::array<int, 3>\n\t\t>\n\t> find_neighbors_to(\n\t\tconst uint64_t cell,\n\t\tconst std::vector<Types<3>::neighborhood_item_t>& neighborhood\n\t) const {\n\t\tusing std::to_string;\n\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tstd::vector<std::pair<uint64_t, std::array<int, 3>>> return_neighbors;\n\n\t\tif (\n\t\t\tcell == error_cell\n\t\t\tor cell > this->mapping.get_last_cell()\n\t\t\tor cell != this->get_child(cell)\n\t\t) {\n\t\t\tthrow std::invalid_argument(\n\t\t\t\t__FILE__ "(" + to_string(__LINE__) + ") "\n\t\t\t\t+ to_string(cell) + ", " + to_string(this->get_child(cell))\n\t\t\t\t+ ", " + to_string(this->mapping.get_last_cell())\n\t\t\t\t+ ", " + to_string(this->cell_process.count(cell))\n\t\t\t);\n\t\t}\n\n\t\tconst int refinement_level = this->mapping.get_refinement_level(cell);\n\n\t\t#ifdef DEBUG\n\t\tif (refinement_level > this->mapping.get_maximum_refinement_level()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Refinement level (" << refinement_level\n\t\t\t\t<< ") of cell " << cell\n\t\t\t\t<< " exceeds maximum refinement level of the grid ("\n\t\t\t\t<< this->mapping.get_maximum_refinement_level() << ")"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (refinement_level < 0) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Refinement level of cell " << cell\n\t\t\t\t<< " is less than 0: " << refinement_level\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tstd::unordered_map<uint64_t, std::array<int, 3>> unique_neighbors;\n\n\t\t// neighbor_to larger than given cell\n\t\tif (refinement_level > 0) {\n\t\t\tconst auto parent = this->mapping.get_parent(cell);\n\t\t\tconst auto indices = this->mapping.get_indices(parent);\n\t\t\tconst auto length_in_indices = this->mapping.get_cell_length_in_indices(parent);\n\n\t\t\tconst auto search_indices = this->indices_from_neighborhood(\n\t\t\t\tindices,\n\t\t\t\tlength_in_indices,\n\t\t\t\tneighborhood\n\t\t\t);\n\n\t\t\tfor (size_t i = 0; i < search_indices.size(); i++) {\n\t\t\t\tconst auto& search_index = search_indices[i];\n\n\t\t\t\tif (search_index[0] == error_index) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tconst uint64_t found\n\t\t\t\t\t= this->mapping.get_cell_from_indices(search_index, refinement_level - 1);\n\n\t\t\t\t// only add if found cell doesn\'t have children\n\t\t\t\tif (found == this->get_child(found)) {\n\t\t\t\t\tunique_neighbors[found] = {0, 0, 0};\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\t// neighbor_to smaller than given cell\n\t\tif (refinement_level < this->mapping.get_maximum_refinement_level()) {\n\n\t\t\tconst auto children = this->mapping.get_all_children(cell);\n\t\t\t#ifdef DEBUG\n\t\t\tif (children[0] == error_cell) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " No children for cell " << cell\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst uint64_t length_in_indices = this->mapping.get_cell_length_in_indices(children[0]);\n\n\t\t\tfor (const auto child: children) {\n\n\t\t\t\tconst Types<3>::indices_t indices = this->mapping.get_indices(child);\n\n\t\t\t\tstd::vector<Types<3>::indices_t> search_indices = this->indices_from_neighborhood(\n\t\t\t\t\tindices,\n\t\t\t\t\tlength_in_indices,\n\t\t\t\t\tneighborhood\n\t\t\t\t);\n\n\t\t\t\tfor (const auto& search_index: search_indices) {\n\n\t\t\t\t\tif (search_index[0] == error_index) {\n\t\t\t\t\t\tcontinue;\n\t\t\t\t\t}\n\n\t\t\t\t\tconst uint64_t found\n\t\t\t\t\t\t= this->mapping.get_cell_from_indices(search_index, refinement_level + 1);\n\n\t\t\t\t\tif (found == this->get_child(found)) {\n\t\t\t\t\t\tunique_neighbors[found] = {0, 0, 0};\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\t// neighbors_to of the same size as given cell\n\t\tconst Types<3>::indices_t indices = this->mapping.get_indices(cell);\n\t\tconst uint64_t length_in_indices = this->mapping.get_cell_length_in_indices(cell);\n\n\t\tstd::vector<Types<3>::indices_t> search_indices = this->indices_from_neighborhood(\n\t\t\tindices,\n\t\t\tlength_in_indices,\n\t\t\tneighborhood\n\t\t);\n\n\t\tfor (const auto& search_index: search_indices) {\n\n\t\t\tif (search_index[0] == error_index) {\n\t\t\t\tcontinue;\n\t\t\t}\n\n\t\t\tconst uint64_t found = this->mapping.get_cell_from_indices(search_index, refinement_level);\n\t\t\tif (found == this->get_child(found)) {\n\t\t\t\tunique_neighbors[found] = {0, 0, 0};\n\t\t\t}\n\t\t}\n\n\t\treturn_neighbors.reserve(unique_neighbors.size());\n\n\t\tfor (const auto& neighbor: unique_neighbors) {\n\t\t\treturn_neighbors.push_back(neighbor);\n\t\t}\n\n\t\treturn return_neighbors;\n\t}\n\n\n\t/*!\n\tReturns unique cells within given rectangular box and refinement levels (both inclusive).\n\n\tCells within given volume are always returned in the following order:\n\tStarting from the corner closest to the starting corner of the grid cells are returned\n\tfirst in the positive x direction then y direction and finally z direction.\n\t*/\n\t// TODO: make private?\n\tstd::vector<uint64_t> find_cells(\n\t\tconst Types<3>::indices_t indices_min,\n\t\tconst Types<3>::indices_t indices_max,\n\t\tconst int minimum_refinement_level,\n\t\tconst int maximum_refinement_level\n\t) const {\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t// size of cells in indices of given maximum_refinement_level\n\t\tconst uint64_t index_increase\n\t\t\t= uint64_t(1) << (this->mapping.get_maximum_refinement_level() - maximum_refinement_level);\n\n\t\t#ifdef DEBUG\n\t\tif (minimum_refinement_level > maximum_refinement_level) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Invalid refinement levels given"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (maximum_refinement_level > this->mapping.get_maximum_refinement_level()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Invalid maximum refinement level given"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\t// check that outer shell makes sense\n\t\tif (indices_min[0] > indices_max[0]) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " minimum x index > maximum x index"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (indices_min[1] > indices_max[1]) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " minimum y index > maximum y index"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (indices_min[2] > indices_max[2]) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " minimum z index > maximum z index"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tstd::vector<uint64_t> result;\n\t\tstd::unordered_set<uint64_t> uniques;\n\n\t\tTypes<3>::indices_t indices = {{0, 0, 0}};\n\t\tfor (indices[2] = indices_min[2]; indices[2] <= indices_max[2]; indices[2] += index_increase)\n\t\tfor (indices[1] = indices_min[1]; indices[1] <= indices_max[1]; indices[1] += index_increase)\n\t\tfor (indices[0] = indices_min[0]; indices[0] <= indices_max[0]; indices[0] += index_increase) {\n\n\t\t\tconst uint64_t cell\n\t\t\t\t= this->get_existing_cell(\n\t\t\t\t\tindices,\n\t\t\t\t\tminimum_refinement_level,\n\t\t\t\t\tmaximum_refinement_level\n\t\t\t\t);\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (cell == error_cell) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " No cell found between refinement levels [" << minimum_refinement_level\n\t\t\t\t\t<< ", " << maximum_refinement_level\n\t\t\t\t\t<< "] at indices " << indices[0]\n\t\t\t\t\t<< " " << indices[1]\n\t\t\t\t\t<< " " << indices[2]\n\t\t\t\t\t<< std::endl;\n\n\t\t\t\tconst uint64_t smallest\n\t\t\t\t\t= this->get_existing_cell(indices, 0, this->mapping.get_maximum_refinement_level());\n\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " smallest cell there is " << smallest\n\t\t\t\t\t<< " with refinement level " << this->mapping.get_refinement_level(smallest)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->cell_process.count(cell) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << cell\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (cell > this->mapping.get_last_cell()) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Cell can\'t exist" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\t/*\n\t\t\tWhen searching for neighbors_to, cells may exist with larger refinement\n\t\t\tlevel than given in find_neighbors_to and shouldn\'t be considered.\n\t\t\t*/\n\t\t\tif (cell != this->get_child(cell)) {\n\t\t\t\tcontinue;\n\t\t\t}\n\n\t\t\t// don\'t add the same cell twice\n\t\t\tif (uniques.count(cell) == 0) {\n\t\t\t\tuniques.insert(cell);\n\t\t\t\tresult.push_back(cell);\n\t\t\t}\n\t\t}\n\n\t\treturn result;\n\t}\n\n\n\t/*!\n\tAn asynchronous version of update_copies_of_remote_neighbors().\n\n\tStarts remote neighbor data updates and returns immediately.\n\tUse e.g. wait_remote_neighbors_copy_updates() to make sure cell\n\tdata has been transferred.\n\n\t\\see\n\twait_remote_neighbor_copy_updates()\n\tstart_remote_neighbor_copy_receives()\n\tstart_remote_neighbor_copy_sends()\n\tupdate_copies_of_remote_neighbors()\n\t*/\n\tbool start_remote_neighbor_copy_updates(\n\t\tconst int neighborhood_id = default_neighborhood_id\n\t) {\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (this->balancing_load) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " start_remote_neighbor_data_update(...) called while balancing load"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tbool ret_val = true;\n\n\t\tif (!this->start_remote_neighbor_copy_receives(neighborhood_id)) {\n\t\t\tret_val = false;\n\t\t}\n\n\t\tif (!this->start_remote_neighbor_copy_sends(neighborhood_id)) {\n\t\t\tret_val = false;\n\t\t}\n\n\t\treturn ret_val;\n', '\t>& finish_balance_load()\n\t{\n\t\t#ifndef DCCRG_NO_LB\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tif (!this->balancing_load) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " finish_balance_load() called without "\n\t\t\t\t<< "calling initialize_balance_load(...) first."\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\n\t\t/*\n\t\tCalculate where cells have migrated to update internal data structures\n\t\t*/\n\n\t\t// removed cells on all processes\n\t\tstd::vector<uint64_t> temp_removed_cells(\n\t\t\tthis->removed_cells.begin(),\n\t\t\tthis->removed_cells.end()\n\t\t);\n\n\t\t// created cells on all processes\n\t\tstd::vector<uint64_t> temp_added_cells(\n\t\t\tthis->added_cells.begin(),\n\t\t\tthis->added_cells.end()\n\t\t);\n\n\t\tstd::vector<std::vector<uint64_t>> all_added_cells;\n\t\tAll_Gather()(temp_added_cells, all_added_cells, this->comm);\n\n\t\t#ifdef DEBUG\n\t\tstd::vector<std::vector<uint64_t> > all_removed_cells;\n\t\tAll_Gather()(temp_removed_cells, all_removed_cells, this->comm);\n\n\t\t// check that there are no duplicate adds / removes\n\t\tstd::unordered_set<uint64_t> all_adds, all_removes;\n\n\t\tfor (const auto& item: all_removed_cells) {\n\t\t\tfor (const uint64_t removed_cell: item) {\n\n\t\t\t\tif (all_removes.count(removed_cell) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << removed_cell\n\t\t\t\t\t\t<< " was already removed"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tall_removes.insert(removed_cell);\n\t\t\t}\n\t\t}\n\n\t\tfor (const auto& item: all_added_cells) {\n\t\t\tfor (const uint64_t added_cell: item) {\n\n\t\t\t\tif (all_adds.count(added_cell) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << added_cell\n\t\t\t\t\t\t<< " was already removed"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tall_adds.insert(added_cell);\n\t\t\t}\n\t\t}\n\n\t\t// check that cells were removed by their process\n\t\tfor (uint64_t cell_remover = 0; cell_remover < all_removed_cells.size(); cell_remover++) {\n\n\t\t\tfor (const uint64_t removed_cell: all_removed_cells.at(cell_remover)) {\n\n\t\t\t\tif (this->cell_process.at(removed_cell) != cell_remover) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << removed_cell\n\t\t\t\t\t\t<< " doesn\'t belong to process " << cell_remover\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t\t#endif\n\n\t\t// update cell to process mappings\n\t\tuint64_t creator = 0;\n\t\tfor (const auto& added: all_added_cells) {\n\t\t\tfor (const uint64_t created_cell: added) {\n\t\t\t\tthis->cell_process[created_cell] = creator;\n\t\t\t}\n\t\t\tcreator++;\n\t\t}\n\n\t\t#ifdef DEBUG\n\t\tif (!this->is_consistent()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Grid is not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->pin_requests_succeeded()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Pin requests didn\'t succeed"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\t\t#endif\n\n\t\tfor (auto it = this->removed_cells.cbegin(); it != this->removed_cells.cend(); ++it) {\n\t\t\tthis->cell_data.erase(*it);\n\t\t}\n\t\tthis->update_neighbors_();\n\n\t\tthis->update_neighbors();\n\t\tfor (const auto& h: this->user_hood_of) {\n\t\t\tthis->user_neigh_of.at(h.first).clear();\n\t\t\tthis->user_neigh_to.at(h.first).clear();\n\t\t}\n\t\tfor (const auto& i: this->cell_process) {\n\t\t\tfor (const auto& j: this->user_hood_of) {\n\t\t\t\tthis->update_user_neighbors(i.first, j.first);\n\t\t\t}\n\t\t}\n\n\n\t\tthis->update_remote_neighbor_info();\n\t\t// also remote neighbor info of user neighborhoods\n\t\tfor (std::unordered_map<int, std::vector<Types<3>::neighborhood_item_t>>::const_iterator\n\t\t\titem = this->user_hood_of.begin();\n\t\t\titem != this->user_hood_of.end();\n\t\t\titem++\n\t\t) {\n\t\t\tthis->update_user_remote_neighbor_info(item->first);\n\t\t}\n\n\t\tthis->recalculate_neighbor_update_send_receive_lists();\n\n\t\tthis->allocate_copies_of_remote_neighbors();\n\n\t\ttry {\n\t\t\tthis->update_cell_pointers(\n\t\t\t\tthis->cells_rw,\n\t\t\t\tthis->neighbors_rw,\n\t\t\t\tthis->inner_cells_default,\n\t\t\t\tthis->outer_cells_default,\n\t\t\t\tthis->local_cells_default,\n\t\t\t\tthis->remote_cells_default,\n\t\t\t\tthis->all_cells_default,\n\t\t\t\tdefault_neighborhood_id\n\t\t\t);\n\t\t} catch (...) {\n\t\t\tthrow std::runtime_error(__FILE__ "(" + std::to_string(__LINE__) + ")");\n\t\t}\n\t\tfor (const auto& item: this->user_hood_of) {\n\t\t\tthis->update_cell_pointers_user(item.first);\n\t\t}\n\n\t\t#ifdef DEBUG\n\t\tif (!this->is_consistent()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " The grid is inconsistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_neighbors()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Neighbor lists are incorrect"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_remote_neighbor_info()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Remote neighbor info is not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_user_data()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " User data not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\t\t#endif\n\n\t\tthis->added_cells.clear();\n\t\tthis->removed_cells.clear();\n\t\tthis->balancing_load = false;\n\n\t\t#endif // ifndef DCCRG_NO_LB\n\t\treturn *this;\n\t}\n\n\n\t/*!\n\tReturns the parent of given cell.\n\n\tIf parent exists returns it,\n\totherwise if given cell exists returns it,\n\totherwise returns error_cell.\n\t*/\n\tuint64_t get_parent(const uint64_t cell) const\n\t{\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t// given cell cannot have a parent\n\t\tif (this->mapping.get_refinement_level(cell) == 0) {\n\t\t\tif (this->cell_process.count(cell) > 0) {\n\t\t\t\treturn cell;\n\t\t\t} else {\n\t\t\t\t return error_cell;\n\t\t\t}\n\t\t}\n\n\t\tconst uint64_t parent = this->mapping.get_cell_from_indices(\n\t\t\tthis->mapping.get_indices(cell),\n\t\t\tthis->mapping.get_refinement_level(cell) - 1\n\t\t);\n\n\t\tif (this->cell_process.count(parent) > 0) {\n\t\t\treturn parent;\n\t\t}\n\t\tif (this->cell_process.count(cell) > 0) {\n\t\t\treturn cell;\n\t\t}\n\n\t\treturn error_cell;\n\t}\n\n\n\t/*!\n\tReturns the indices corresponding to the given neighborhood at given indices.\n\n\tNeighborhood is returned in units of length_in_indices.\n\tIf grid is not periodic in some direction then indices which would fall outside\n\tof the grid in that direction are returned as error_index.\n\t*/\n\tstd::vector<Types<3>::indices_t> indices_from_neighborhood(\n\t\tconst Types<3>::indices_t indices,\n\t\tconst uint64_t length_in_indices,\n\t\tconst std::vector<Types<3>::neighborhood_item_t>& neighborhood\n\t) const {\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t// TODO: make neighborhood a const reference\n\t\tstd::vector<Types<3>::indices_t> return_indices;\n\t\treturn_indices.reserve(neighborhood.size());\n\n\t\t// grid length in indices\n\t\tconst uint64_t grid_length[3] = {\n\t\t\tthis->length.get()[0] * (uint64_t(1) << this->mapping.get_maximum_refinement_level()),\n\t\t\tthis->length.get()[1] * (uint64_t(1) << this->mapping.get_maximum_refinement_level()),\n\t\t\tthis->length.get()[2] * (uint64_t(1) << this->mapping.get_maximum_refinement_level())\n\t\t};\n\n\t\t#ifdef DEBUG\n\t\tfor (unsigned int dimension = 0; dimension < 3; dimension++) {\n\t\t\tif (indices[dimension] >= grid_length[dimension]) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Given indices outside of the grid in dimension " << dimension\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t}\n\t\t#endif\n\n\t\tfor (const auto& offsets: neighborhood) {\n\n\t\t\tTypes<3>::indices_t temp_indices = {{indices[0], indices[1], indices[2]}};\n\n\t\t\tfor (unsigned int dimension = 0; dimension < 3; dimension++) {\n\t\t\t\tif (offsets[dimension] < 0) {\n\n\t\t\t\t\tif (this->topology.is_periodic(dimension)) {\n\n\t\t\t\t\t\t// neighborhood might wrap around the grid several times\n\t\t\t\t\t\tfor (int i = 0; i > offsets[dimension]; i--) {\n\n\t\t\t\t\t\t\t#ifdef DEBUG\n\t\t\t\t\t\t\tif (temp_indices[dimension] < length_in_indices - 1\n\t\t\t\t\t\t\t&& temp_indices[dimension] > 0) {\n\t\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t\t<< " Cells aren\'t supposed to wrap around the grid."\n\t\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\t#endif\n\n\t\t\t\t\t\t\tif (temp_indices[dimension] >= length_in_indices) {\n\t\t\t\t\t\t\t\ttemp_indices[dimension] -= length_in_indices;\n\t\t\t\t\t\t\t} else {\n\t\t\t\t\t\t\t\ttemp_indices[dimension] = grid_length[dimension] - length_in_indices;\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n\t\t\t\t\t// use error_indices to signal that this neighborhood item is outside of the grid\n\t\t\t\t\t} else {\n\t\t\t\t\t\tif (indices[dimension] < abs(offsets[dimension]) * length_in_indices) {\n\t\t\t\t\t\t\ttemp_indices[0] = error_index;\n\t\t\t\t\t\t\ttemp_indices[1] = error_index;\n\t\t\t\t\t\t\ttemp_indices[2] = error_index;\n\t\t\t\t\t\t\tbreak;\n\t\t\t\t\t\t}\n\n\t\t\t\t\t\ttemp_indices[dimension] += offsets[dimension] * length_in_indices;\n\t\t\t\t\t}\n\n\t\t\t\t} else {\n\n\t\t\t\t\tif (this->topology.is_periodic(dimension)) {\n\t\t\t\t\t\tfor (int i = 0; i < offsets[dimension]; i++) {\n\n\t\t\t\t\t\t\t#ifdef DEBUG\n\t\t\t\t\t\t\tif (temp_indices[dimension] > grid_length[dimension] - length_in_indices) {\n\t\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t\t<< " Cells aren\'t supposed to wrap around the grid."\n\t\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\t#endif\n\n\t\t\t\t\t\t\tif (temp_indices[dimension] < grid_length[dimension] - length_in_indices) {\n\t\t\t\t\t\t\t\ttemp_indices[dimension] += length_in_indices;\n\t\t\t\t\t\t\t} else {\n\t\t\t\t\t\t\t\ttemp_indices[dimension] = 0;\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n\t\t\t\t\t} else {\n\t\t\t\t\t\tif (\n\t\t\t\t\t\t\tindices[dimension] + offsets[dimension] * length_in_indices\n\t\t\t\t\t\t\t>= grid_length[dimension]\n\t\t\t\t\t\t) {\n\t\t\t\t\t\t\ttemp_indices[0] = error_index;\n\t\t\t\t\t\t\ttemp_indices[1] = error_index;\n\t\t\t\t\t\t\ttemp_indices[2] = error_index;\n\t\t\t\t\t\t\tbreak;\n\t\t\t\t\t\t}\n\n\t\t\t\t\t\ttemp_indices[dimension] += offsets[dimension] * length_in_indices;\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\n\t\t\treturn_indices.push_back(temp_indices);\n\t\t}\n\n\t\treturn return_indices;\n\t}\n\n\n\t/*!\n\tReturns neighbors of given cell based on given neighborhood.\n\n\tSame neighbor appears once for each neighborhood item.\n\tFor example in one cell grid priodic in all dimensions\n\twith neighborhood size 1 the cell itself will appear\n\t26 times at various offsets.\n\n\tIf given cell owned by another process, returned\n\tneighbors might not be complete.\n\n\tThrows if given cell isn\'t known to this process or\n\tif given error_cell.\n\t*/\n\t// TODO: make private?\n\tstd::vector<\n\t\tstd::pair<\n\t\t\tuint64_t,\n\t\t\tstd::array<int, 3> // x, y, z offsets\n\t\t>\n\t> find_neighbors_of(\n\t\tuint64_t cell,\n\t\tconst std::vector<std::array<int, 3>>& neighborhood\n\t) const {\n\t\tusing std::to_string;\n\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tif (\n\t\t\tcell == error_cell\n\t\t\tor this->cell_process.count(cell) == 0\n\t\t) {\n\t\t\tthrow std::runtime_error(\n\t\t\t\t__FILE__ "(" + to_string(__LINE__) + ")"\n\t\t\t\t"Invalid cell: " + to_string(cell)\n\t\t\t);\n\t\t}\n\n\t\t// convert to int to reduce verbosity later\n\t\tconst auto get_len_int = [&](const uint64_t cell_)->int {\n\t\t\tconst auto len = this->mapping.get_cell_length_in_indices(cell_);\n\t\t\tif (len > std::numeric_limits<int>::max()) {\n\t\t\t\tthrow std::overflow_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + "): "\n\t\t\t\t\t+ to_string(cell_) + ", " + to_string(len)\n\t\t\t\t);\n\t\t\t}\n\t\t\treturn len;\n\t\t};\n\t\tconst int cell_length = get_len_int(cell);\n\n\t\tif (this->neighbors_.count(cell) == 0) {\n\t\t\tthrow std::runtime_error(\n\t\t\t\t__FILE__ "(" + std::to_string(__LINE__) + "): " + to_string(cell)\n\t\t\t);\n\t\t}\n\n\t\t// offset from cell_ to its parent or 0 if not applicable\n\t\tconst auto get_parent_offset = [&](const uint64_t cell_)->std::array<int, 3> {\n\t\t\tstd::array<int, 3> ret_val{0, 0, 0};\n\t\t\tconst auto parent = this->mapping.get_parent(cell_);\n\t\t\tif (parent == error_cell or parent == cell_) {\n\t\t\t\treturn ret_val;\n\t\t\t}\n\t\t\tconst auto\n\t\t\t\tcell_ind = this->mapping.get_indices(cell_),\n\t\t\t\tpar_ind = this->mapping.get_indices(parent);\n\t\t\t// no need to consider grid periodicity\n\t\t\tfor (size_t dim = 0; dim < 3; dim++) {\n\t\t\t\tif (par_ind[dim] >= cell_ind[dim]) {\n\t\t\t\t\tret_val[dim] += (int)(par_ind[dim] - cell_ind[dim]);\n\t\t\t\t} else {\n\t\t\t\t\tret_val[dim] -= (int)(cell_ind[dim] - par_ind[dim]);\n\t\t\t\t}\n\t\t\t}\n\t\t\treturn ret_val;\n\t\t};\n\n\t\t// TODO: split into function\n\t\tconst auto adjust_offset = [&](\n\t\t\tstd::array<int, 3> offset,\n\t\t\tconst uint64_t from,\n\t\t\tconst uint64_t to,\n\t\t\tconst int direction\n\t\t)->std::array<int, 3> {\n\t\t\tconst auto\n\t\t\t\tfrom_len = get_len_int(from),\n\t\t\t\tto_len = get_len_int(to);\n\n\t\t\tswitch(direction) {\n\t\t\tcase -1:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[0] -= from_len;\n\t\t\t\t// adjust offset if neighbor of different size\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0] - to_len;\n\t\t\t\t\t\toffset[1] += par_off[1];\n\t\t\t\t\t\toffset[2] += par_off[2];\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0] + from_len;\n\t\t\t\t\t\toffset[1] -= par_off[1];\n\t\t\t\t\t\toffset[2] -= par_off[2];\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tcase +1:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[0] += from_len;\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0] + to_len;\n\t\t\t\t\t\toffset[1] += par_off[1];\n\t\t\t\t\t\toffset[2] += par_off[2];\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0] - from_len;\n\t\t\t\t\t\toffset[1] -= par_off[1];\n\t\t\t\t\t\toffset[2] -= par_off[2];\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tcase -2:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[1] -= from_len;\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0];\n\t\t\t\t\t\toffset[1] += par_off[1] - to_len;\n\t\t\t\t\t\toffset[2] += par_off[2];\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0];\n\t\t\t\t\t\toffset[1] -= par_off[1] + from_len;\n\t\t\t\t\t\toffset[2] -= par_off[2];\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tcase +2:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[1] += from_len;\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0];\n\t\t\t\t\t\toffset[1] += par_off[1] + to_len;\n\t\t\t\t\t\toffset[2] += par_off[2];\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0];\n\t\t\t\t\t\toffset[1] -= par_off[1] - from_len;\n\t\t\t\t\t\toffset[2] -= par_off[2];\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tcase -3:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[2] -= from_len;\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0];\n\t\t\t\t\t\toffset[1] += par_off[1];\n\t\t\t\t\t\toffset[2] += par_off[2] - to_len;\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0];\n\t\t\t\t\t\toffset[1] -= par_off[1];\n\t\t\t\t\t\toffset[2] -= par_off[2] + from_len;\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tcase +3:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[2] += from_len;\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0];\n\t\t\t\t\t\toffset[1] += par_off[1];\n\t\t\t\t\t\toffset[2] += par_off[2] + to_len;\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0];\n\t\t\t\t\t\toffset[1] -= par_off[1];\n\t\t\t\t\t\toffset[2] -= par_off[2] - from_len;\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tdefault:\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "("\n\t\t\t\t\t+ std::to_string(__LINE__) + ") "\n\t\t\t\t\t+ std::to_string(direction)\n\t\t\t\t);\n\t\t\t}\n\t\t\treturn offset;\n\t\t};\n\n\t\tstd::vector<std::pair<uint64_t, std::array<int, 3>>> return_neighbors;\n\n\t\tfor (const auto& hood: neighborhood) {\n\t\t\t// find neighbors within these offsets of indices\n\t\t\tconst std::array<int, 3>\n\t\t\t\toff_start{\n\t\t\t\t\thood[0] * cell_length,\n\t\t\t\t\thood[1] * cell_length,\n\t\t\t\t\thood[2] * cell_length\n\t\t\t\t},\n\t\t\t\toff_end{\n\t\t\t\t\t(hood[0] + 1) * cell_length - 1,\n\t\t\t\t\t(hood[1] + 1) * cell_length - 1,\n\t\t\t\t\t(hood[2] + 1) * cell_length - 1\n\t\t\t\t};\n\n\t\t\tstd::array<int, 3> offset{0, 0, 0};\n\t\t\t// find a cell within required offsets\n\t\t\tuint64_t current = cell;\n\t\t\tint curr_len = get_len_int(current);\n\t\t\twhile (\n\t\t\t\t   offset[0] + curr_len - 1 < off_start[0] or offset[0] > off_end[0]\n\t\t\t\tor offset[1] + curr_len - 1 < off_start[1] or offset[1] > off_end[1]\n\t\t\t\tor offset[2] + curr_len - 1 < off_start[2] or offset[2] > off_end[2]\n\t\t\t) {\n\t\t\t\tif (this->neighbors_.count(current) == 0) {\n\t\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + ") "\n\t\t\t\t\t\t"No neighbors_ for cell " + to_string(current)\n\t\t\t\t\t);\n\t\t\t\t}\n\t\t\t\tconst auto& neighs = this->neighbors_.at(current);\n\n\t\t\t\tif (offset[0] > off_end[0]) {\n\t\t\t\t\tif (neighs[0] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[0], -1);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[0];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tif (offset[0] + curr_len - 1 < off_start[0]) {\n\t\t\t\t\tif (neighs[1] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[1], +1);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[1];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (offset[1] > off_end[1]) {\n\t\t\t\t\tif (neighs[2] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[2], -2);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[2];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tif (offset[1] + curr_len - 1 < off_start[1]) {\n\t\t\t\t\tif (neighs[3] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[3], +2);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[3];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (offset[2] > off_end[2]) {\n\t\t\t\t\tif (neighs[4] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[4], -3);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[4];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tif (offset[2] + curr_len - 1 < off_start[2]) {\n\t\t\t\t\tif (neighs[5] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[5], +3);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[5];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + "): Internal error");\n\t\t\t}\n\n\t\t\tif (current == error_cell) {\n\t\t\t\tcontinue;\n\t\t\t}\n\n\t\t\tcurr_len = get_len_int(current);\n\t\t\tif (curr_len >= cell_length) {\n\t\t\t\treturn_neighbors.emplace_back(current, offset);\n\t\t\t\tcontinue;\n\t\t\t}\n\n\t\t\t// also add siblings\n\t\t\tconst auto siblings = this->mapping.get_siblings(current);\n\t\t\tsize_t current_i = 0;\n\t\t\tfor (; current_i < siblings.size(); current_i++) {\n\t\t\t\tif (current == siblings[current_i]) {\n\t\t\t\t\tbreak;\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tif (current_i >= siblings.size() or current != siblings[current_i]) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + "): Internal error");\n\t\t\t}\n\n\t\t\t// adjust offset to sibling closest to 0,0,0\n\t\t\tif (current_i % 2 > 0) {\n\t\t\t\toffset[0] -= curr_len;\n\t\t\t}\n\t\t\tif (current_i % 4 > 1) {\n\t\t\t\toffset[1] -= curr_len;\n\t\t\t}\n\t\t\tif (current_i > 3) {\n\t\t\t\toffset[2] -= curr_len;\n\t\t\t}\n\n\t\t\tsize_t i = 0;\n\t\t\tfor (auto off_z: {0, curr_len}) {\n\t\t\tfor (auto off_y: {0, curr_len}) {\n\t\t\tfor (auto off_x: {0, curr_len}) {\n\t\t\t\treturn_neighbors.push_back({\n\t\t\t\t\tsiblings[i++],\n\t\t\t\t\t{offset[0] + off_x, offset[1] + off_y, offset[2] + off_z}\n\t\t\t\t});\n\t\t\t}}}\n\t\t}\n\n\t\treturn return_neighbors;\n\t}\n\n\n\n\t/*!\n\tReturns cells that consider given cell as a neighbor.\n\n\tIf given cell is owned by another process returned\n\tneighbors_to might not be complete.\n\n\tReturns nothing in following cases:\n\t\t- current process doesn\'t know about given cell\n\t\t- given error_cell\n\n\tReturned cells are not in any particular order.\n\n\tReturned offset are all 0.\n\n\tReturned cells are unique, i.e. each cell only appears once.\n\n\tAssumes a maximum refinement level difference of one between neighbors\n\t(both cases: neighbors_of, neighbors_to).\n\t*/\n\tstd::vector<\n\t\tstd::pair<\n\t\t\tuint64_t,\n\t\t\tstd::array<int, 3>\n\t\t>\n\t> find_neighbors_to(\n\t\tconst uint64_t cell,\n\t\tconst std::vector<Types<3>::neighborhood_item_t>& neighborhood\n\t) const {\n\t\tusing std::to_string;\n\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tstd::vector<std::pair<uint64_t, std::array<int, 3>>> return_neighbors;\n\n\t\tif (\n\t\t\tcell == error_cell\n\t\t\tor cell > this->mapping.get_last_cell()\n\t\t\tor cell != this->get_child(cell)\n\t\t) {\n\t\t\tthrow std::invalid_argument(\n\t\t\t\t__FILE__ "(" + to_string(__LINE__) + ") "\n\t\t\t\t+ to_string(cell) + ", " + to_string(this->get_child(cell))\n\t\t\t\t+ ", " + to_string(this->mapping.get_last_cell())\n\t\t\t\t+ ", " + to_string(this->cell_process.count(cell))\n\t\t\t);\n\t\t}\n\n\t\tconst int refinement_level = this->mapping.get_refinement_level(cell);\n\n\t\t#ifdef DEBUG\n\t\tif (refinement_level > this->mapping.get_maximum_refinement_level()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Refinement level (" << refinement_level\n\t\t\t\t<< ") of cell " << cell\n\t\t\t\t<< " exceeds maximum refinement level of the grid ("\n\t\t\t\t<< this->mapping.get_maximum_refinement_level() << ")"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (refinement_level < 0) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Refinement level of cell " << cell\n\t\t\t\t<< " is less than 0: " << refinement_level\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tstd::unordered_map<uint64_t, std::array<int, 3>> unique_neighbors;\n\n\t\t// neighbor_to larger than given cell\n\t\tif (refinement_level > 0) {\n\t\t\tconst auto parent = this->mapping.get_parent(cell);\n\t\t\tconst auto indices = this->mapping.get_indices(parent);\n\t\t\tconst auto length_in_indices = this->mapping.get_cell_length_in_indices(parent);\n\n\t\t\tconst auto search_indices = this->indices_from_neighborhood(\n\t\t\t\tindices,\n\t\t\t\tlength_in_indices,\n\t\t\t\tneighborhood\n\t\t\t);\n\n\t\t\tfor (size_t i = 0; i < search_indices.size(); i++) {\n\t\t\t\tconst auto& search_index = search_indices[i];\n\n\t\t\t\tif (search_index[0] == error_index) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tconst uint64_t found\n\t\t\t\t\t= this->mapping.get_cell_from_indices(search_index, refinement_level - 1);\n\n\t\t\t\t// only add if found cell doesn\'t have children\n\t\t\t\tif (found == this->get_child(found)) {\n\t\t\t\t\tunique_neighbors[found] = {0, 0, 0};\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\t// neighbor_to smaller than given cell\n\t\tif (refinement_level < this->mapping.get_maximum_refinement_level()) {\n\n\t\t\tconst auto children = this->mapping.get_all_children(cell);\n\t\t\t#ifdef DEBUG\n\t\t\tif (children[0] == error_cell) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " No children for cell " << cell\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst uint64_t length_in_indices = this->mapping.get_cell_length_in_indices(children[0]);\n\n\t\t\tfor (const auto child: children) {\n\n\t\t\t\tconst Types<3>::indices_t indices = this->mapping.get_indices(child);\n\n\t\t\t\tstd::vector<Types<3>::indices_t> search_indices = this->indices_from_neighborhood(\n\t\t\t\t\tindices,\n\t\t\t\t\tlength_in_indices,\n\t\t\t\t\tneighborhood\n\t\t\t\t);\n\n\t\t\t\tfor (const auto& search_index: search_indices) {\n\n\t\t\t\t\tif (search_index[0] == error_index) {\n\t\t\t\t\t\tcontinue;\n\t\t\t\t\t}\n\n\t\t\t\t\tconst uint64_t found\n\t\t\t\t\t\t= this->mapping.get_cell_from_indices(search_index, refinement_level + 1);\n\n\t\t\t\t\tif (found == this->get_child(found)) {\n\t\t\t\t\t\tunique_neighbors[found] = {0, 0, 0};\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\t// neighbors_to of the same size as given cell\n\t\tconst Types<3>::indices_t indices = this->mapping.get_indices(cell);\n\t\tconst uint64_t length_in_indices = this->mapping.get_cell_length_in_indices(cell);\n\n\t\tstd::vector<Types<3>::indices_t> search_indices = this->indices_from_neighborhood(\n\t\t\tindices,\n\t\t\tlength_in_indices,\n\t\t\tneighborhood\n\t\t);\n\n\t\tfor (const auto& search_index: search_indices) {\n\n\t\t\tif (search_index[0] == error_index) {\n\t\t\t\tcontinue;\n\t\t\t}\n\n\t\t\tconst uint64_t found = this->mapping.get_cell_from_indices(search_index, refinement_level);\n\t\t\tif (found == this->get_child(found)) {\n\t\t\t\tunique_neighbors[found] = {0, 0, 0};\n\t\t\t}\n\t\t}\n\n\t\treturn_neighbors.reserve(unique_neighbors.size());\n\n\t\tfor (const auto& neighbor: unique_neighbors) {\n\t\t\treturn_neighbors.push_back(neighbor);\n\t\t}\n\n\t\treturn return_neighbors;\n\t}\n\n\n\t/*!\n\tReturns unique cells within given rectangular box and refinement levels (both inclusive).\n\n\tCells within given volume are always returned in the following order:\n\tStarting from the corner closest to the starting corner of the grid cells are returned\n\tfirst in the positive x direction then y direction and finally z direction.\n\t*/\n\t// TODO: make private?\n\tstd::vector<uint64_t> find_cells(\n\t\tconst Types<3>::indices_t indices_min,\n\t\tconst Types<3>::indices_t indices_max,\n\t\tconst int minimum_refinement_level,\n\t\tconst int maximum_refinement_level\n\t) const {\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t// size of cells in indices of given maximum_refinement_level\n\t\tconst uint64_t index_increase\n\t\t\t= uint64_t(1) << (this->mapping.get_maximum_refinement_level() - maximum_refinement_level);\n\n\t\t#ifdef DEBUG\n\t\tif (minimum_refinement_level > maximum_refinement_level) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Invalid refinement levels given"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (maximum_refinement_level > this->mapping.get_maximum_refinement_level()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Invalid maximum refinement level given"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\t// check that outer shell makes sense\n\t\tif (indices_min[0] > indices_max[0]) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " minimum x index > maximum x index"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (indices_min[1] > indices_max[1]) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " minimum y index > maximum y index"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (indices_min[2] > indices_max[2]) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " minimum z index > maximum z index"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tstd::vector<uint64_t> result;\n\t\tstd::unordered_set<uint64_t> uniques;\n\n\t\tTypes<3>::indices_t indices = {{0, 0, 0}};\n\t\tfor (indices[2] = indices_min[2]; indices[2] <= indices_max[2]; indices[2] += index_increase)\n\t\tfor (indices[1] = indices_min[1]; indices[1] <= indices_max[1]; indices[1] += index_increase)\n\t\tfor (indices[0] = indices_min[0]; indices[0] <= indices_max[0]; indices[0] += index_increase) {\n\n\t\t\tconst uint64_t cell\n\t\t\t\t= this->get_existing_cell(\n\t\t\t\t\tindices,\n\t\t\t\t\tminimum_refinement_level,\n\t\t\t\t\tmaximum_refinement_level\n\t\t\t\t);\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (cell == error_cell) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " No cell found between refinement levels [" << minimum_refinement_level\n\t\t\t\t\t<< ", " << maximum_refinement_level\n\t\t\t\t\t<< "] at indices " << indices[0]\n\t\t\t\t\t<< " " << indices[1]\n\t\t\t\t\t<< " " << indices[2]\n\t\t\t\t\t<< std::endl;\n\n\t\t\t\tconst uint64_t smallest\n\t\t\t\t\t= this->get_existing_cell(indices, 0, this->mapping.get_maximum_refinement_level());\n\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " smallest cell there is " << smallest\n\t\t\t\t\t<< " with refinement level " << this->mapping.get_refinement_level(smallest)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->cell_process.count(cell) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << cell\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (cell > this->mapping.get_last_cell()) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Cell can\'t exist" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\t/*\n\t\t\tWhen searching for neighbors_to, cells may exist with larger refinement\n\t\t\tlevel than given in find_neighbors_to and shouldn\'t be considered.\n\t\t\t*/\n\t\t\tif (cell != this->get_child(cell)) {\n\t\t\t\tcontinue;\n\t\t\t}\n\n\t\t\t// don\'t add the same cell twice\n\t\t\tif (uniques.count(cell) == 0) {\n\t\t\t\tuniques.insert(cell);\n\t\t\t\tresult.push_back(cell);\n\t\t\t}\n\t\t}\n\n\t\treturn result;\n\t}\n\n\n\t/*!\n\tAn asynchronous version of update_copies_of_remote_neighbors().\n\n\tStarts remote neighbor data updates and returns immediately.\n\tUse e.g. wait_remote_neighbors_copy_updates() to make sure cell\n\tdata has been transferred.\n\n\t\\see\n\twait_remote_neighbor_copy_updates()\n\tstart_remote_neighbor_copy_receives()\n\tstart_remote_neighbor_copy_sends()\n\tupdate_copies_of_remote_neighbors()\n\t*/\n\tbool start_remote_neighbor_copy_updates(\n\t\tconst int neighborhood_id = default_neighborhood_id\n\t) {\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (this->balancing_load) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " start_remote_neighbor_data_update(...) called while balancing load"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tbool ret_val = true;\n\n\t\tif (!this->start_remote_neighbor_copy_receives(neighborhood_id)) {\n\t\t\tret_val = false;\n\t\t}\n\n\t\tif (!this->start_remote_neighbor_copy_sends(neighborhood_id)) {\n\t\t\tret_val = false;\n\t\t}\n\n\t\treturn ret_val;\n'))
same('q-fb-helper', ('\t>& finish_balance_load()\n\t{\n\t\t#ifndef DCCRG_NO_LB\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tif (!this->balancing_load) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " finish_balance_load() called without "\n\t\t\t\t<< "calling initialize_balance_load(...) first."\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\n\t\t/*\n\t\tCalculate where cells have migrated to update internal data structures\n\t\t*/\n\n\t\t// removed cells on all processes\n\t\tstd::vector<uint64_t> temp_removed_cells(\n\t\t\tthis->removed_cells.begin(),\n\t\t\tthis->removed_cells.end()\n\t\t);\n\n\t\t// created cells on all processes\n\t\tstd::vector<uint64_t> temp_added_cells(\n\t\t\tthis->added_cells.begin(),\n\t\t\tthis->added_cells.end()\n\t\t);\n\n\t\tstd::vector<std::vector<uint64_t>> all_added_cells;\n\t\tAll_Gather()(temp_added_cells, all_added_cells, this->comm);\n\n\t\t#ifdef DEBUG\n\t\tstd::vector<std::vector<uint64_t> > all_removed_cells;\n\t\tAll_Gather()(temp_removed_cells, all_removed_cells, this->comm);\n\n\t\t// check that there are no duplicate adds / removes\n\t\tstd::unordered_set<uint64_t> all_adds, all_removes;\n\n\t\tfor (const auto& item: all_removed_cells) {\n\t\t\tfor (const uint64_t removed_cell: item) {\n\n\t\t\t\tif (all_removes.count(removed_cell) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << removed_cell\n\t\t\t\t\t\t<< " was already removed"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tall_removes.insert(removed_cell);\n\t\t\t}\n\t\t}\n\n\t\tfor (const auto& item: all_added_cells) {\n\t\t\tfor (const uint64_t added_cell: item) {\n\n\t\t\t\tif (all_adds.count(added_cell) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << added_cell\n\t\t\t\t\t\t<< " was already removed"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tall_adds.insert(added_cell);\n\t\t\t}\n\t\t}\n\n\t\t// check that cells were removed by their process\n\t\tfor (uint64_t cell_remover = 0; cell_remover < all_removed_cells.size(); cell_remover++) {\n\n\t\t\tfor (const uint64_t removed_cell: all_removed_cells.at(cell_remover)) {\n\n\t\t\t\tif (this->cell_process.at(removed_cell) != cell_remover) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << removed_cell\n\t\t\t\t\t\t<< " doesn\'t belong to process " << cell_remover\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t\t#endif\n\n\t\t// update cell to process mappings\n\t\tfor (uint64_t cell_creator = 0; cell_creator < all_added_cells.size(); cell_creator++) {\n\n\t\t\tfor (const uint64_t created_cell: all_added_cells.at(cell_creator)) {\n\t\t\t\tthis->cell_process.at(created_cell) = cell_creator;\n\t\t\t}\n\t\t}\n\n\t\t#ifdef DEBUG\n\t\tif (!this->is_consistent()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Grid is not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->pin_requests_succeeded()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Pin requests didn\'t succeed"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\t\t#endif\n\n\t\tthis->update_neighbors_();\n\n\t\tthis->update_neighbors();\n\t\tfor (const auto& h: this->user_hood_of) {\n\t\t\tthis->user_neigh_of.at(h.first).clear();\n\t\t\tthis->user_neigh_to.at(h.first).clear();\n\t\t}\n\t\tfor (const auto& i: this->cell_process) {\n\t\t\tfor (const auto& j: this->user_hood_of) {\n\t\t\t\tthis->update_user_neighbors(i.first, j.first);\n\t\t\t}\n\t\t}\n\n\t\t// free user data of cells removed from this process\n\t\tfor (const uint64_t removed_cell: this->removed_cells) {\n\t\t\tthis->cell_data.erase(removed_cell);\n\t\t}\n\n\t\tthis->update_remote_neighbor_info();\n\t\t// also remote neighbor info of user neighborhoods\n\t\tfor (std::unordered_map<int, std::vector<Types<3>::neighborhood_item_t>>::const_iterator\n\t\t\titem = this->user_hood_of.begin();\n\t\t\titem != this->user_hood_of.end();\n\t\t\titem++\n\t\t) {\n\t\t\tthis->update_user_remote_neighbor_info(item->first);\n\t\t}\n\n\t\tthis->recalculate_neighbor_update_send_receive_lists();\n\n\t\tthis->allocate_copies_of_remote_neighbors();\n\n\t\ttry {\n\t\t\tthis->update_cell_pointers(\n\t\t\t\tthis->cells_rw,\n\t\t\t\tthis->neighbors_rw,\n\t\t\t\tthis->inner_cells_default,\n\t\t\t\tthis->outer_cells_default,\n\t\t\t\tthis->local_cells_default,\n\t\t\t\tthis->remote_cells_default,\n\t\t\t\tthis->all_cells_default,\n\t\t\t\tdefault_neighborhood_id\n\t\t\t);\n\t\t} catch (...) {\n\t\t\tthrow std::runtime_error(__FILE__ "(" + std::to_string(__LINE__) + ")");\n\t\t}\n\t\tfor (const auto& item: this->user_hood_of) {\n\t\t\tthis->update_cell_pointers_user(item.first);\n\t\t}\n\n\t\t#ifdef DEBUG\n\t\tif (!this->is_consistent()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " The grid is inconsistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_neighbors()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Neighbor lists are incorrect"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_remote_neighbor_info()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Remote neighbor info is not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_user_data()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " User data not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\t\t#endif\n\n\t\tthis->added_cells.clear();\n\t\tthis->removed_cells.clear();\n\t\tthis->balancing_load = false;\n\n\t\t#endif // ifndef DCCRG_NO_LB\n\t\treturn *this;\n\t}\n\n\n\t/*!\n\tReturns the parent of given cell.\n\n\tIf parent exists returns it,\n\totherwise if given cell exists returns it,\n\totherwise returns error_cell.\n\t*/\n\tuint64_t get_parent(const uint64_t cell) const\n\t{\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t// given cell cannot have a parent\n\t\tif (this->mapping.get_refinement_level(cell) == 0) {\n\t\t\tif (this->cell_process.count(cell) > 0) {\n\t\t\t\treturn cell;\n\t\t\t} else {\n\t\t\t\t return error_cell;\n\t\t\t}\n\t\t}\n\n\t\tconst uint64_t parent = this->mapping.get_cell_from_indices(\n\t\t\tthis->mapping.get_indices(cell),\n\t\t\tthis->mapping.get_refinement_level(cell) - 1\n\t\t);\n\n\t\tif (this->cell_process.count(parent) > 0) {\n\t\t\treturn parent;\n\t\t}\n\t\tif (this->cell_process.count(cell) > 0) {\n\t\t\treturn cell;\n\t\t}\n\n\t\treturn error_cell;\n\t}\n\n\n\t/*!\n\tReturns the indices corresponding to the given neighborhood at given indices.\n\n\tNeighborhood is returned in units of length_in_indices.\n\tIf grid is not periodic in some direction then indices which would fall outside\n\tof the grid in that direction are returned as error_index.\n\t*/\n\tstd::vector<Types<3>::indices_t> indices_from_neighborhood(\n\t\tconst Types<3>::indices_t indices,\n\t\tconst uint64_t length_in_indices,\n\t\tconst std::vector<Types<3>::neighborhood_item_t>& neighborhood\n\t) const {\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t// TODO: make neighborhood a const reference\n\t\tstd::vector<Types<3>::indices_t> return_indices;\n\t\treturn_indices.reserve(neighborhood.size());\n\n\t\t// grid length in indices\n\t\tconst uint64_t grid_length[3] = {\n\t\t\tthis->length.get()[0] * (uint64_t(1) << this->mapping.get_maximum_refinement_level()),\n\t\t\tthis->length.get()[1] * (uint64_t(1) << this->mapping.get_maximum_refinement_level()),\n\t\t\tthis->length.get()[2] * (uint64_t(1) << this->mapping.get_maximum_refinement_level())\n\t\t};\n\n\t\t#ifdef DEBUG\n\t\tfor (unsigned int dimension = 0; dimension < 3; dimension++) {\n\t\t\tif (indices[dimension] >= grid_length[dimension]) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Given indices outside of the grid in dimension " << dimension\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t}\n\t\t#endif\n\n\t\tfor (const auto& offsets: neighborhood) {\n\n\t\t\tTypes<3>::indices_t temp_indices = {{indices[0], indices[1], indices[2]}};\n\n\t\t\tfor (unsigned int dimension = 0; dimension < 3; dimension++) {\n\t\t\t\tif (offsets[dimension] < 0) {\n\n\t\t\t\t\tif (this->topology.is_periodic(dimension)) {\n\n\t\t\t\t\t\t// neighborhood might wrap around the grid several times\n\t\t\t\t\t\tfor (int i = 0; i > offsets[dimension]; i--) {\n\n\t\t\t\t\t\t\t#ifdef DEBUG\n\t\t\t\t\t\t\tif (temp_indices[dimension] < length_in_indices - 1\n\t\t\t\t\t\t\t&& temp_indices[dimension] > 0) {\n\t\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t\t<< " Cells aren\'t supposed to wrap around the grid."\n\t\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\t#endif\n\n\t\t\t\t\t\t\tif (temp_indices[dimension] >= length_in_indices) {\n\t\t\t\t\t\t\t\ttemp_indices[dimension] -= length_in_indices;\n\t\t\t\t\t\t\t} else {\n\t\t\t\t\t\t\t\ttemp_indices[dimension] = grid_length[dimension] - length_in_indices;\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n\t\t\t\t\t// use error_indices to signal that this neighborhood item is outside of the grid\n\t\t\t\t\t} else {\n\t\t\t\t\t\tif (indices[dimension] < abs(offsets[dimension]) * length_in_indices) {\n\t\t\t\t\t\t\ttemp_indices[0] = error_index;\n\t\t\t\t\t\t\ttemp_indices[1] = error_index;\n\t\t\t\t\t\t\ttemp_indices[2] = error_index;\n\t\t\t\t\t\t\tbreak;\n\t\t\t\t\t\t}\n\n\t\t\t\t\t\ttemp_indices[dimension] += offsets[dimension] * length_in_indices;\n\t\t\t\t\t}\n\n\t\t\t\t} else {\n\n\t\t\t\t\tif (this->topology.is_periodic(dimension)) {\n\t\t\t\t\t\tfor (int i = 0; i < offsets[dimension]; i++) {\n\n\t\t\t\t\t\t\t#ifdef DEBUG\n\t\t\t\t\t\t\tif (temp_indices[dimension] > grid_length[dimension] - length_in_indices) {\n\t\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t\t<< " Cells aren\'t supposed to wrap around the grid."\n\t\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\t#endif\n\n\t\t\t\t\t\t\tif (temp_indices[dimension] < grid_length[dimension] - length_in_indices) {\n\t\t\t\t\t\t\t\ttemp_indices[dimension] += length_in_indices;\n\t\t\t\t\t\t\t} else {\n\t\t\t\t\t\t\t\ttemp_indices[dimension] = 0;\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n\t\t\t\t\t} else {\n\t\t\t\t\t\tif (\n\t\t\t\t\t\t\tindices[dimension] + offsets[dimension] * length_in_indices\n\t\t\t\t\t\t\t>= grid_length[dimension]\n\t\t\t\t\t\t) {\n\t\t\t\t\t\t\ttemp_indices[0] = error_index;\n\t\t\t\t\t\t\ttemp_indices[1] = error_index;\n\t\t\t\t\t\t\ttemp_indices[2] = error_index;\n\t\t\t\t\t\t\tbreak;\n\t\t\t\t\t\t}\n\n\t\t\t\t\t\ttemp_indices[dimension] += offsets[dimension] * length_in_indices;\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\n\t\t\treturn_indices.push_back(temp_indices);\n\t\t}\n\n\t\treturn return_indices;\n\t}\n\n\n\t/*!\n\tReturns neighbors of given cell based on given neighborhood.\n\n\tSame neighbor appears once for each neighborhood item.\n\tFor example in one cell grid priodic in all dimensions\n\twith neighborhood size 1 the cell itself will appear\n\t26 times at various offsets.\n\n\tIf given cell owned by another process, returned\n\tneighbors might not be complete.\n\n\tThrows if given cell isn\'t known to this process or\n\tif given error_cell.\n\t*/\n\t// TODO: make private?\n\tstd::vector<\n\t\tstd::pair<\n\t\t\tuint64_t,\n\t\t\tstd::array<int, 3> // x, y, z offsets\n\t\t>\n\t> find_neighbors_of(\n\t\tuint64_t cell,\n\t\tconst std::vector<std::array<int, 3>>& neighborhood\n\t) const {\n\t\tusing std::to_string;\n\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tif (\n\t\t\tcell == error_cell\n\t\t\tor this->cell_process.count(cell) == 0\n\t\t) {\n\t\t\tthrow std::runtime_error(\n\t\t\t\t__FILE__ "(" + to_string(__LINE__) + ")"\n\t\t\t\t"Invalid cell: " + to_string(cell)\n\t\t\t);\n\t\t}\n\n\t\t// convert to int to reduce verbosity later\n\t\tconst auto get_len_int = [&](const uint64_t cell_)->int {\n\t\t\tconst auto len = this->mapping.get_cell_length_in_indices(cell_);\n\t\t\tif (len > std::numeric_limits<int>::max()) {\n\t\t\t\tthrow std::overflow_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + "): "\n\t\t\t\t\t+ to_string(cell_) + ", " + to_string(len)\n\t\t\t\t);\n\t\t\t}\n\t\t\treturn len;\n\t\t};\n\t\tconst int cell_length = get_len_int(cell);\n\n\t\tif (this->neighbors_.count(cell) == 0) {\n\t\t\tthrow std::runtime_error(\n\t\t\t\t__FILE__ "(" + std::to_string(__LINE__) + "): " + to_string(cell)\n\t\t\t);\n\t\t}\n\n\t\t// offset from cell_ to its parent or 0 if not applicable\n\t\tconst auto get_parent_offset = [&](const uint64_t cell_)->std::array<int, 3> {\n\t\t\tstd::array<int, 3> ret_val{0, 0, 0};\n\t\t\tconst auto parent = this->mapping.get_parent(cell_);\n\t\t\tif (parent == error_cell or parent == cell_) {\n\t\t\t\treturn ret_val;\n\t\t\t}\n\t\t\tconst auto\n\t\t\t\tcell_ind = this->mapping.get_indices(cell_),\n\t\t\t\tpar_ind = this->mapping.get_indices(parent);\n\t\t\t// no need to consider grid periodicity\n\t\t\tfor (size_t dim = 0; dim < 3; dim++) {\n\t\t\t\tif (par_ind[dim] >= cell_ind[dim]) {\n\t\t\t\t\tret_val[dim] += (int)(par_ind[dim] - cell_ind[dim]);\n\t\t\t\t} else {\n\t\t\t\t\tret_val[dim] -= (int)(cell_ind[dim] - par_ind[dim]);\n\t\t\t\t}\n\t\t\t}\n\t\t\treturn ret_val;\n\t\t};\n\n\t\t// TODO: split into function\n\t\tconst auto adjust_offset = [&](\n\t\t\tstd::array<int, 3> offset,\n\t\t\tconst uint64_t from,\n\t\t\tconst uint64_t to,\n\t\t\tconst int direction\n\t\t)->std::array<int, 3> {\n\t\t\tconst auto\n\t\t\t\tfrom_len = get_len_int(from),\n\t\t\t\tto_len = get_len_int(to);\n\n\t\t\tswitch(direction) {\n\t\t\tcase -1:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[0] -= from_len;\n\t\t\t\t// adjust offset if neighbor of different size\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0] - to_len;\n\t\t\t\t\t\toffset[1] += par_off[1];\n\t\t\t\t\t\toffset[2] += par_off[2];\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0] + from_len;\n\t\t\t\t\t\toffset[1] -= par_off[1];\n\t\t\t\t\t\toffset[2] -= par_off[2];\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tcase +1:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[0] += from_len;\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0] + to_len;\n\t\t\t\t\t\toffset[1] += par_off[1];\n\t\t\t\t\t\toffset[2] += par_off[2];\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0] - from_len;\n\t\t\t\t\t\toffset[1] -= par_off[1];\n\t\t\t\t\t\toffset[2] -= par_off[2];\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tcase -2:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[1] -= from_len;\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0];\n\t\t\t\t\t\toffset[1] += par_off[1] - to_len;\n\t\t\t\t\t\toffset[2] += par_off[2];\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0];\n\t\t\t\t\t\toffset[1] -= par_off[1] + from_len;\n\t\t\t\t\t\toffset[2] -= par_off[2];\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tcase +2:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[1] += from_len;\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0];\n\t\t\t\t\t\toffset[1] += par_off[1] + to_len;\n\t\t\t\t\t\toffset[2] += par_off[2];\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0];\n\t\t\t\t\t\toffset[1] -= par_off[1] - from_len;\n\t\t\t\t\t\toffset[2] -= par_off[2];\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tcase -3:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[2] -= from_len;\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0];\n\t\t\t\t\t\toffset[1] += par_off[1];\n\t\t\t\t\t\toffset[2] += par_off[2] - to_len;\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0];\n\t\t\t\t\t\toffset[1] -= par_off[1];\n\t\t\t\t\t\toffset[2] -= par_off[2] + from_len;\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tcase +3:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[2] += from_len;\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0];\n\t\t\t\t\t\toffset[1] += par_off[1];\n\t\t\t\t\t\toffset[2] += par_off[2] + to_len;\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0];\n\t\t\t\t\t\toffset[1] -= par_off[1];\n\t\t\t\t\t\toffset[2] -= par_off[2] - from_len;\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tdefault:\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "("\n\t\t\t\t\t+ std::to_string(__LINE__) + ") "\n\t\t\t\t\t+ std::to_string(direction)\n\t\t\t\t);\n\t\t\t}\n\t\t\treturn offset;\n\t\t};\n\n\t\tstd::vector<std::pair<uint64_t, std::array<int, 3>>> return_neighbors;\n\n\t\tfor (const auto& hood: neighborhood) {\n\t\t\t// find neighbors within these offsets of indices\n\t\t\tconst std::array<int, 3>\n\t\t\t\toff_start{\n\t\t\t\t\thood[0] * cell_length,\n\t\t\t\t\thood[1] * cell_length,\n\t\t\t\t\thood[2] * cell_length\n\t\t\t\t},\n\t\t\t\toff_end{\n\t\t\t\t\t(hood[0] + 1) * cell_length - 1,\n\t\t\t\t\t(hood[1] + 1) * cell_length - 1,\n\t\t\t\t\t(hood[2] + 1) * cell_length - 1\n\t\t\t\t};\n\n\t\t\tstd::array<int, 3> offset{0, 0, 0};\n\t\t\t// find a cell within required offsets\n\t\t\tuint64_t current = cell;\n\t\t\tint curr_len = get_len_int(current);\n\t\t\twhile (\n\t\t\t\t   offset[0] + curr_len - 1 < off_start[0] or offset[0] > off_end[0]\n\t\t\t\tor offset[1] + curr_len - 1 < off_start[1] or offset[1] > off_end[1]\n\t\t\t\tor offset[2] + curr_len - 1 < off_start[2] or offset[2] > off_end[2]\n\t\t\t) {\n\t\t\t\tif (this->neighbors_.count(current) == 0) {\n\t\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + ") "\n\t\t\t\t\t\t"No neighbors_ for cell " + to_string(current)\n\t\t\t\t\t);\n\t\t\t\t}\n\t\t\t\tconst auto& neighs = this->neighbors_.at(current);\n\n\t\t\t\tif (offset[0] > off_end[0]) {\n\t\t\t\t\tif (neighs[0] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[0], -1);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[0];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tif (offset[0] + curr_len - 1 < off_start[0]) {\n\t\t\t\t\tif (neighs[1] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[1], +1);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[1];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (offset[1] > off_end[1]) {\n\t\t\t\t\tif (neighs[2] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[2], -2);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[2];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tif (offset[1] + curr_len - 1 < off_start[1]) {\n\t\t\t\t\tif (neighs[3] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[3], +2);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[3];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (offset[2] > off_end[2]) {\n\t\t\t\t\tif (neighs[4] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[4], -3);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[4];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tif (offset[2] + curr_len - 1 < off_start[2]) {\n\t\t\t\t\tif (neighs[5] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[5], +3);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[5];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + "): Internal error");\n\t\t\t}\n\n\t\t\tif (current == error_cell) {\n\t\t\t\tcontinue;\n\t\t\t}\n\n\t\t\tcurr_len = get_len_int(current);\n\t\t\tif (curr_len >= cell_length) {\n\t\t\t\treturn_neighbors.emplace_back(current, offset);\n\t\t\t\tcontinue;\n\t\t\t}\n\n\t\t\t// also add siblings\n\t\t\tconst auto siblings = this->mapping.get_siblings(current);\n\t\t\tsize_t current_i = 0;\n\t\t\tfor (; current_i < siblings.size(); current_i++) {\n\t\t\t\tif (current == siblings[current_i]) {\n\t\t\t\t\tbreak;\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tif (current_i >= siblings.size() or current != siblings[current_i]) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + "): Internal error");\n\t\t\t}\n\n\t\t\t// adjust offset to sibling closest to 0,0,0\n\t\t\tif (current_i % 2 > 0) {\n\t\t\t\toffset[0] -= curr_len;\n\t\t\t}\n\t\t\tif (current_i % 4 > 1) {\n\t\t\t\toffset[1] -= curr_len;\n\t\t\t}\n\t\t\tif (current_i > 3) {\n\t\t\t\toffset[2] -= curr_len;\n\t\t\t}\n\n\t\t\tsize_t i = 0;\n\t\t\tfor (auto off_z: {0, curr_len}) {\n\t\t\tfor (auto off_y: {0, curr_len}) {\n\t\t\tfor (auto off_x: {0, curr_len}) {\n\t\t\t\treturn_neighbors.push_back({\n\t\t\t\t\tsiblings[i++],\n\t\t\t\t\t{offset[0] + off_x, offset[1] + off_y, offset[2] + off_z}\n\t\t\t\t});\n\t\t\t}}}\n\t\t}\n\n\t\treturn return_neighbors;\n\t}\n\n\n\n\t/*!\n\tReturns cells that consider given cell as a neighbor.\n\n\tIf given cell is owned by another process returned\n\tneighbors_to might not be complete.\n\n\tReturns nothing in following cases:\n\t\t- current process doesn\'t know about given cell\n\t\t- given error_cell\n\n\tReturned cells are not in any particular order.\n\n\tReturned offset are all 0.\n\n\tReturned cells are unique, i.e. each cell only appears once.\n\n\tAssumes a maximum refinement level difference of one between neighbors\n\t(both cases: neighbors_of, neighbors_to).\n\t*/\n\tstd::vector<\n\t\tstd::pair<\n\t\t\tuint64_t,\n\t\t\tstd::array<int, 3>\n\t\t>\n\t> find_neighbors_to(\n\t\tconst uint64_t cell,\n\t\tconst std::vector<Types<3>::neighborhood_item_t>& neighborhood\n\t) const {\n\t\tusing std::to_string;\n\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tstd::vector<std::pair<uint64_t, std::array<int, 3>>> return_neighbors;\n\n\t\tif (\n\t\t\tcell == error_cell\n\t\t\tor cell > this->mapping.get_last_cell()\n\t\t\tor cell != this->get_child(cell)\n\t\t) {\n\t\t\tthrow std::invalid_argument(\n\t\t\t\t__FILE__ "(" + to_string(__LINE__) + ") "\n\t\t\t\t+ to_string(cell) + ", " + to_string(this->get_child(cell))\n\t\t\t\t+ ", " + to_string(this->mapping.get_last_cell())\n\t\t\t\t+ ", " + to_string(this->cell_process.count(cell))\n\t\t\t);\n\t\t}\n\n\t\tconst int refinement_level = this->mapping.get_refinement_level(cell);\n\n\t\t#ifdef DEBUG\n\t\tif (refinement_level > this->mapping.get_maximum_refinement_level()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Refinement level (" << refinement_level\n\t\t\t\t<< ") of cell " << cell\n\t\t\t\t<< " exceeds maximum refinement level of the grid ("\n\t\t\t\t<< this->mapping.get_maximum_refinement_level() << ")"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (refinement_level < 0) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Refinement level of cell " << cell\n\t\t\t\t<< " is less than 0: " << refinement_level\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tstd::unordered_map<uint64_t, std::array<int, 3>> unique_neighbors;\n\n\t\t// neighbor_to larger than given cell\n\t\tif (refinement_level > 0) {\n\t\t\tconst auto parent = this->mapping.get_parent(cell);\n\t\t\tconst auto indices = this->mapping.get_indices(parent);\n\t\t\tconst auto length_in_indices = this->mapping.get_cell_length_in_indices(parent);\n\n\t\t\tconst auto search_indices = this->indices_from_neighborhood(\n\t\t\t\tindices,\n\t\t\t\tlength_in_indices,\n\t\t\t\tneighborhood\n\t\t\t);\n\n\t\t\tfor (size_t i = 0; i < search_indices.size(); i++) {\n\t\t\t\tconst auto& search_index = search_indices[i];\n\n\t\t\t\tif (search_index[0] == error_index) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tconst uint64_t found\n\t\t\t\t\t= this->mapping.get_cell_from_indices(search_index, refinement_level - 1);\n\n\t\t\t\t// only add if found cell doesn\'t have children\n\t\t\t\tif (found == this->get_child(found)) {\n\t\t\t\t\tunique_neighbors[found] = {0, 0, 0};\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\t// neighbor_to smaller than given cell\n\t\tif (refinement_level < this->mapping.get_maximum_refinement_level()) {\n\n\t\t\tconst auto children = this->mapping.get_all_children(cell);\n\t\t\t#ifdef DEBUG\n\t\t\tif (children[0] == error_cell) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " No children for cell " << cell\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst uint64_t length_in_indices = this->mapping.get_cell_length_in_indices(children[0]);\n\n\t\t\tfor (const auto child: children) {\n\n\t\t\t\tconst Types<3>::indices_t indices = this->mapping.get_indices(child);\n\n\t\t\t\tstd::vector<Types<3>::indices_t> search_indices = this->indices_from_neighborhood(\n\t\t\t\t\tindices,\n\t\t\t\t\tlength_in_indices,\n\t\t\t\t\tneighborhood\n\t\t\t\t);\n\n\t\t\t\tfor (const auto& search_index: search_indices) {\n\n\t\t\t\t\tif (search_index[0] == error_index) {\n\t\t\t\t\t\tcontinue;\n\t\t\t\t\t}\n\n\t\t\t\t\tconst uint64_t found\n\t\t\t\t\t\t= this->mapping.get_cell_from_indices(search_index, refinement_level + 1);\n\n\t\t\t\t\tif (found == this->get_child(found)) {\n\t\t\t\t\t\tunique_neighbors[found] = {0, 0, 0};\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\t// neighbors_to of the same size as given cell\n\t\tconst Types<3>::indices_t indices = this->mapping.get_indices(cell);\n\t\tconst uint64_t length_in_indices = this->mapping.get_cell_length_in_indices(cell);\n\n\t\tstd::vector<Types<3>::indices_t> search_indices = this->indices_from_neighborhood(\n\t\t\tindices,\n\t\t\tlength_in_indices,\n\t\t\tneighborhood\n\t\t);\n\n\t\tfor (const auto& search_index: search_indices) {\n\n\t\t\tif (search_index[0] == error_index) {\n\t\t\t\tcontinue;\n\t\t\t}\n\n\t\t\tconst uint64_t found = this->mapping.get_cell_from_indices(search_index, refinement_level);\n\t\t\tif (found == this->get_child(found)) {\n\t\t\t\tunique_neighbors[found] = {0, 0, 0};\n\t\t\t}\n\t\t}\n\n\t\treturn_neighbors.reserve(unique_neighbors.size());\n\n\t\tfor (const auto& neighbor: unique_neighbors) {\n\t\t\treturn_neighbors.push_back(neighbor);\n\t\t}\n\n\t\treturn return_neighbors;\n\t}\n\n\n\t/*!\n\tReturns unique cells within given rectangular box and refinement levels (both inclusive).\n\n\tCells within given volume are always returned in the following order:\n\tStarting from the corner closest to the starting corner of the grid cells are returned\n\tfirst in the positive x direction then y direction and finally z direction.\n\t*/\n\t// TODO: make private?\n\tstd::vector<uint64_t> find_cells(\n\t\tconst Types<3>::indices_t indices_min,\n\t\tconst Types<3>::indices_t indices_max,\n\t\tconst int minimum_refinement_level,\n\t\tconst int maximum_refinement_level\n\t) const {\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t// size of cells in indices of given maximum_refinement_level\n\t\tconst uint64_t index_increase\n\t\t\t= uint64_t(1) << (this->mapping.get_maximum_refinement_level() - maximum_refinement_level);\n\n\t\t#ifdef DEBUG\n\t\tif (minimum_refinement_level > maximum_refinement_level) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Invalid refinement levels given"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (maximum_refinement_level > this->mapping.get_maximum_refinement_level()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Invalid maximum refinement level given"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\t// check that outer shell makes sense\n\t\tif (indices_min[0] > indices_max[0]) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " minimum x index > maximum x index"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (indices_min[1] > indices_max[1]) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " minimum y index > maximum y index"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (indices_min[2] > indices_max[2]) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " minimum z index > maximum z index"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tstd::vector<uint64_t> result;\n\t\tstd::unordered_set<uint64_t> uniques;\n\n\t\tTypes<3>::indices_t indices = {{0, 0, 0}};\n\t\tfor (indices[2] = indices_min[2]; indices[2] <= indices_max[2]; indices[2] += index_increase)\n\t\tfor (indices[1] = indices_min[1]; indices[1] <= indices_max[1]; indices[1] += index_increase)\n\t\tfor (indices[0] = indices_min[0]; indices[0] <= indices_max[0]; indices[0] += index_increase) {\n\n\t\t\tconst uint64_t cell\n\t\t\t\t= this->get_existing_cell(\n\t\t\t\t\tindices,\n\t\t\t\t\tminimum_refinement_level,\n\t\t\t\t\tmaximum_refinement_level\n\t\t\t\t);\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (cell == error_cell) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " No cell found between refinement levels [" << minimum_refinement_level\n\t\t\t\t\t<< ", " << maximum_refinement_level\n\t\t\t\t\t<< "] at indices " << indices[0]\n\t\t\t\t\t<< " " << indices[1]\n\t\t\t\t\t<< " " << indices[2]\n\t\t\t\t\t<< std::endl;\n\n\t\t\t\tconst uint64_t smallest\n\t\t\t\t\t= this->get_existing_cell(indices, 0, this->mapping.get_maximum_refinement_level());\n\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " smallest cell there is " << smallest\n\t\t\t\t\t<< " with refinement level " << this->mapping.get_refinement_level(smallest)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->cell_process.count(cell) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << cell\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (cell > this->mapping.get_last_cell()) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Cell can\'t exist" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\t/*\n\t\t\tWhen searching for neighbors_to, cells may exist with larger refinement\n\t\t\tlevel than given in find_neighbors_to and shouldn\'t be considered.\n\t\t\t*/\n\t\t\tif (cell != this->get_child(cell)) {\n\t\t\t\tcontinue;\n\t\t\t}\n\n\t\t\t// don\'t add the same cell twice\n\t\t\tif (uniques.count(cell) == 0) {\n\t\t\t\tuniques.insert(cell);\n\t\t\t\tresult.push_back(cell);\n\t\t\t}\n\t\t}\n\n\t\treturn result;\n\t}\n\n\n\t/*!\n\tAn asynchronous version of update_copies_of_remote_neighbors().\n\n\tStarts remote neighbor data updates and returns immediately.\n\tUse e.g. wait_remote_neighbors_copy_updates() to make sure cell\n\tdata has been transferred.\n\n\t\\see\n\twait_remote_neighbor_copy_updates()\n\tstart_remote_neighbor_copy_receives()\n\tstart_remote_neighbor_copy_sends()\n\tupdate_copies_of_remote_neighbors()\n\t*/\n\tbool start_remote_neighbor_copy_updates(\n\t\tconst int neighborhood_id = default_neighborhood_id\n\t) {\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (this->balancing_load) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " start_remote_neighbor_data_update(...) called while balancing load"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tbool ret_val = true;\n\n\t\tif (!this->start_remote_neighbor_copy_receives(neighborhood_id)) {\n\t\t\tret_val = false;\n\t\t}\n\n\t\tif (!this->start_remote_neighbor_copy_sends(neighborhood_id)) {\n\t\t\tret_val = false;\n\t\t}\n\n\t\treturn ret_val;\n', '\t>& finish_balance_load()\n\t{\n\t\t#ifndef DCCRG_NO_LB\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tif (!this->balancing_load) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " finish_balance_load() called without "\n\t\t\t\t<< "calling initialize_balance_load(...) first."\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tthis->cells_to_send.clear();\n\t\tthis->cells_to_receive.clear();\n\n\t\t/*\n\t\tCalculate where cells have migrated to update internal data structures\n\t\t*/\n\n\t\t// removed cells on all processes\n\t\tstd::vector<uint64_t> temp_removed_cells(\n\t\t\tthis->removed_cells.begin(),\n\t\t\tthis->removed_cells.end()\n\t\t);\n\n\t\t// created cells on all processes\n\t\tstd::vector<uint64_t> temp_added_cells(\n\t\t\tthis->added_cells.begin(),\n\t\t\tthis->added_cells.end()\n\t\t);\n\n\t\tstd::vector<std::vector<uint64_t>> all_added_cells;\n\t\tAll_Gather()(temp_added_cells, all_added_cells, this->comm);\n\n\t\t#ifdef DEBUG\n\t\tstd::vector<std::vector<uint64_t> > all_removed_cells;\n\t\tAll_Gather()(temp_removed_cells, all_removed_cells, this->comm);\n\n\t\t// check that there are no duplicate adds / removes\n\t\tstd::unordered_set<uint64_t> all_adds, all_removes;\n\n\t\tfor (const auto& item: all_removed_cells) {\n\t\t\tfor (const uint64_t removed_cell: item) {\n\n\t\t\t\tif (all_removes.count(removed_cell) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << removed_cell\n\t\t\t\t\t\t<< " was already removed"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tall_removes.insert(removed_cell);\n\t\t\t}\n\t\t}\n\n\t\tfor (const auto& item: all_added_cells) {\n\t\t\tfor (const uint64_t added_cell: item) {\n\n\t\t\t\tif (all_adds.count(added_cell) > 0) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << added_cell\n\t\t\t\t\t\t<< " was already removed"\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tall_adds.insert(added_cell);\n\t\t\t}\n\t\t}\n\n\t\t// check that cells were removed by their process\n\t\tfor (uint64_t cell_remover = 0; cell_remover < all_removed_cells.size(); cell_remover++) {\n\n\t\t\tfor (const uint64_t removed_cell: all_removed_cells.at(cell_remover)) {\n\n\t\t\t\tif (this->cell_process.at(removed_cell) != cell_remover) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Cell " << removed_cell\n\t\t\t\t\t\t<< " doesn\'t belong to process " << cell_remover\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t\t#endif\n\n\t\t// update cell to process mappings\n\t\tfor (uint64_t cell_creator = 0; cell_creator < all_added_cells.size(); cell_creator++) {\n\n\t\t\tfor (const uint64_t created_cell: all_added_cells.at(cell_creator)) {\n\t\t\t\tthis->cell_process.at(created_cell) = cell_creator;\n\t\t\t}\n\t\t}\n\n\t\t#ifdef DEBUG\n\t\tif (!this->is_consistent()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Grid is not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->pin_requests_succeeded()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Pin requests didn\'t succeed"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\t\t#endif\n\n\t\tthis->update_neighbors_();\n\n\t\tthis->update_neighbors();\n\t\tthis->rebuild_user_neighbors();\n\n\t\t// free user data of cells removed from this process\n\t\tfor (const uint64_t removed_cell: this->removed_cells) {\n\t\t\tthis->cell_data.erase(removed_cell);\n\t\t}\n\n\t\tthis->update_remote_neighbor_info();\n\t\t// also remote neighbor info of user neighborhoods\n\t\tfor (std::unordered_map<int, std::vector<Types<3>::neighborhood_item_t>>::const_iterator\n\t\t\titem = this->user_hood_of.begin();\n\t\t\titem != this->user_hood_of.end();\n\t\t\titem++\n\t\t) {\n\t\t\tthis->update_user_remote_neighbor_info(item->first);\n\t\t}\n\n\t\tthis->recalculate_neighbor_update_send_receive_lists();\n\n\t\tthis->allocate_copies_of_remote_neighbors();\n\n\t\ttry {\n\t\t\tthis->update_cell_pointers(\n\t\t\t\tthis->cells_rw,\n\t\t\t\tthis->neighbors_rw,\n\t\t\t\tthis->inner_cells_default,\n\t\t\t\tthis->outer_cells_default,\n\t\t\t\tthis->local_cells_default,\n\t\t\t\tthis->remote_cells_default,\n\t\t\t\tthis->all_cells_default,\n\t\t\t\tdefault_neighborhood_id\n\t\t\t);\n\t\t} catch (...) {\n\t\t\tthrow std::runtime_error(__FILE__ "(" + std::to_string(__LINE__) + ")");\n\t\t}\n\t\tfor (const auto& item: this->user_hood_of) {\n\t\t\tthis->update_cell_pointers_user(item.first);\n\t\t}\n\n\t\t#ifdef DEBUG\n\t\tif (!this->is_consistent()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " The grid is inconsistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_neighbors()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Neighbor lists are incorrect"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_remote_neighbor_info()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Remote neighbor info is not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\n\t\tif (!this->verify_user_data()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " User data not consistent"\n\t\t\t\t<< std::endl;\n\t\t\texit(EXIT_FAILURE);\n\t\t}\n\t\t#endif\n\n\t\tthis->added_cells.clear();\n\t\tthis->removed_cells.clear();\n\t\tthis->balancing_load = false;\n\n\t\t#endif // ifndef DCCRG_NO_LB\n\t\treturn *this;\n\t}\n\n\n\t/*!\n\tReturns the parent of given cell.\n\n\tIf parent exists returns it,\n\totherwise if given cell exists returns it,\n\totherwise returns error_cell.\n\t*/\n\tuint64_t get_parent(const uint64_t cell) const\n\t{\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t// given cell cannot have a parent\n\t\tif (this->mapping.get_refinement_level(cell) == 0) {\n\t\t\tif (this->cell_process.count(cell) > 0) {\n\t\t\t\treturn cell;\n\t\t\t} else {\n\t\t\t\t return error_cell;\n\t\t\t}\n\t\t}\n\n\t\tconst uint64_t parent = this->mapping.get_cell_from_indices(\n\t\t\tthis->mapping.get_indices(cell),\n\t\t\tthis->mapping.get_refinement_level(cell) - 1\n\t\t);\n\n\t\tif (this->cell_process.count(parent) > 0) {\n\t\t\treturn parent;\n\t\t}\n\t\tif (this->cell_process.count(cell) > 0) {\n\t\t\treturn cell;\n\t\t}\n\n\t\treturn error_cell;\n\t}\n\n\n\t/*!\n\tReturns the indices corresponding to the given neighborhood at given indices.\n\n\tNeighborhood is returned in units of length_in_indices.\n\tIf grid is not periodic in some direction then indices which would fall outside\n\tof the grid in that direction are returned as error_index.\n\t*/\n\tstd::vector<Types<3>::indices_t> indices_from_neighborhood(\n\t\tconst Types<3>::indices_t indices,\n\t\tconst uint64_t length_in_indices,\n\t\tconst std::vector<Types<3>::neighborhood_item_t>& neighborhood\n\t) const {\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t// TODO: make neighborhood a const reference\n\t\tstd::vector<Types<3>::indices_t> return_indices;\n\t\treturn_indices.reserve(neighborhood.size());\n\n\t\t// grid length in indices\n\t\tconst uint64_t grid_length[3] = {\n\t\t\tthis->length.get()[0] * (uint64_t(1) << this->mapping.get_maximum_refinement_level()),\n\t\t\tthis->length.get()[1] * (uint64_t(1) << this->mapping.get_maximum_refinement_level()),\n\t\t\tthis->length.get()[2] * (uint64_t(1) << this->mapping.get_maximum_refinement_level())\n\t\t};\n\n\t\t#ifdef DEBUG\n\t\tfor (unsigned int dimension = 0; dimension < 3; dimension++) {\n\t\t\tif (indices[dimension] >= grid_length[dimension]) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Given indices outside of the grid in dimension " << dimension\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t}\n\t\t#endif\n\n\t\tfor (const auto& offsets: neighborhood) {\n\n\t\t\tTypes<3>::indices_t temp_indices = {{indices[0], indices[1], indices[2]}};\n\n\t\t\tfor (unsigned int dimension = 0; dimension < 3; dimension++) {\n\t\t\t\tif (offsets[dimension] < 0) {\n\n\t\t\t\t\tif (this->topology.is_periodic(dimension)) {\n\n\t\t\t\t\t\t// neighborhood might wrap around the grid several times\n\t\t\t\t\t\tfor (int i = 0; i > offsets[dimension]; i--) {\n\n\t\t\t\t\t\t\t#ifdef DEBUG\n\t\t\t\t\t\t\tif (temp_indices[dimension] < length_in_indices - 1\n\t\t\t\t\t\t\t&& temp_indices[dimension] > 0) {\n\t\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t\t<< " Cells aren\'t supposed to wrap around the grid."\n\t\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\t#endif\n\n\t\t\t\t\t\t\tif (temp_indices[dimension] >= length_in_indices) {\n\t\t\t\t\t\t\t\ttemp_indices[dimension] -= length_in_indices;\n\t\t\t\t\t\t\t} else {\n\t\t\t\t\t\t\t\ttemp_indices[dimension] = grid_length[dimension] - length_in_indices;\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n\t\t\t\t\t// use error_indices to signal that this neighborhood item is outside of the grid\n\t\t\t\t\t} else {\n\t\t\t\t\t\tif (indices[dimension] < abs(offsets[dimension]) * length_in_indices) {\n\t\t\t\t\t\t\ttemp_indices[0] = error_index;\n\t\t\t\t\t\t\ttemp_indices[1] = error_index;\n\t\t\t\t\t\t\ttemp_indices[2] = error_index;\n\t\t\t\t\t\t\tbreak;\n\t\t\t\t\t\t}\n\n\t\t\t\t\t\ttemp_indices[dimension] += offsets[dimension] * length_in_indices;\n\t\t\t\t\t}\n\n\t\t\t\t} else {\n\n\t\t\t\t\tif (this->topology.is_periodic(dimension)) {\n\t\t\t\t\t\tfor (int i = 0; i < offsets[dimension]; i++) {\n\n\t\t\t\t\t\t\t#ifdef DEBUG\n\t\t\t\t\t\t\tif (temp_indices[dimension] > grid_length[dimension] - length_in_indices) {\n\t\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t\t<< " Cells aren\'t supposed to wrap around the grid."\n\t\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\t#endif\n\n\t\t\t\t\t\t\tif (temp_indices[dimension] < grid_length[dimension] - length_in_indices) {\n\t\t\t\t\t\t\t\ttemp_indices[dimension] += length_in_indices;\n\t\t\t\t\t\t\t} else {\n\t\t\t\t\t\t\t\ttemp_indices[dimension] = 0;\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n\t\t\t\t\t} else {\n\t\t\t\t\t\tif (\n\t\t\t\t\t\t\tindices[dimension] + offsets[dimension] * length_in_indices\n\t\t\t\t\t\t\t>= grid_length[dimension]\n\t\t\t\t\t\t) {\n\t\t\t\t\t\t\ttemp_indices[0] = error_index;\n\t\t\t\t\t\t\ttemp_indices[1] = error_index;\n\t\t\t\t\t\t\ttemp_indices[2] = error_index;\n\t\t\t\t\t\t\tbreak;\n\t\t\t\t\t\t}\n\n\t\t\t\t\t\ttemp_indices[dimension] += offsets[dimension] * length_in_indices;\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\n\t\t\treturn_indices.push_back(temp_indices);\n\t\t}\n\n\t\treturn return_indices;\n\t}\n\n\n\t/*!\n\tReturns neighbors of given cell based on given neighborhood.\n\n\tSame neighbor appears once for each neighborhood item.\n\tFor example in one cell grid priodic in all dimensions\n\twith neighborhood size 1 the cell itself will appear\n\t26 times at various offsets.\n\n\tIf given cell owned by another process, returned\n\tneighbors might not be complete.\n\n\tThrows if given cell isn\'t known to this process or\n\tif given error_cell.\n\t*/\n\t// TODO: make private?\n\tstd::vector<\n\t\tstd::pair<\n\t\t\tuint64_t,\n\t\t\tstd::array<int, 3> // x, y, z offsets\n\t\t>\n\t> find_neighbors_of(\n\t\tuint64_t cell,\n\t\tconst std::vector<std::array<int, 3>>& neighborhood\n\t) const {\n\t\tusing std::to_string;\n\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tif (\n\t\t\tcell == error_cell\n\t\t\tor this->cell_process.count(cell) == 0\n\t\t) {\n\t\t\tthrow std::runtime_error(\n\t\t\t\t__FILE__ "(" + to_string(__LINE__) + ")"\n\t\t\t\t"Invalid cell: " + to_string(cell)\n\t\t\t);\n\t\t}\n\n\t\t// convert to int to reduce verbosity later\n\t\tconst auto get_len_int = [&](const uint64_t cell_)->int {\n\t\t\tconst auto len = this->mapping.get_cell_length_in_indices(cell_);\n\t\t\tif (len > std::numeric_limits<int>::max()) {\n\t\t\t\tthrow std::overflow_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + "): "\n\t\t\t\t\t+ to_string(cell_) + ", " + to_string(len)\n\t\t\t\t);\n\t\t\t}\n\t\t\treturn len;\n\t\t};\n\t\tconst int cell_length = get_len_int(cell);\n\n\t\tif (this->neighbors_.count(cell) == 0) {\n\t\t\tthrow std::runtime_error(\n\t\t\t\t__FILE__ "(" + std::to_string(__LINE__) + "): " + to_string(cell)\n\t\t\t);\n\t\t}\n\n\t\t// offset from cell_ to its parent or 0 if not applicable\n\t\tconst auto get_parent_offset = [&](const uint64_t cell_)->std::array<int, 3> {\n\t\t\tstd::array<int, 3> ret_val{0, 0, 0};\n\t\t\tconst auto parent = this->mapping.get_parent(cell_);\n\t\t\tif (parent == error_cell or parent == cell_) {\n\t\t\t\treturn ret_val;\n\t\t\t}\n\t\t\tconst auto\n\t\t\t\tcell_ind = this->mapping.get_indices(cell_),\n\t\t\t\tpar_ind = this->mapping.get_indices(parent);\n\t\t\t// no need to consider grid periodicity\n\t\t\tfor (size_t dim = 0; dim < 3; dim++) {\n\t\t\t\tif (par_ind[dim] >= cell_ind[dim]) {\n\t\t\t\t\tret_val[dim] += (int)(par_ind[dim] - cell_ind[dim]);\n\t\t\t\t} else {\n\t\t\t\t\tret_val[dim] -= (int)(cell_ind[dim] - par_ind[dim]);\n\t\t\t\t}\n\t\t\t}\n\t\t\treturn ret_val;\n\t\t};\n\n\t\t// TODO: split into function\n\t\tconst auto adjust_offset = [&](\n\t\t\tstd::array<int, 3> offset,\n\t\t\tconst uint64_t from,\n\t\t\tconst uint64_t to,\n\t\t\tconst int direction\n\t\t)->std::array<int, 3> {\n\t\t\tconst auto\n\t\t\t\tfrom_len = get_len_int(from),\n\t\t\t\tto_len = get_len_int(to);\n\n\t\t\tswitch(direction) {\n\t\t\tcase -1:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[0] -= from_len;\n\t\t\t\t// adjust offset if neighbor of different size\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0] - to_len;\n\t\t\t\t\t\toffset[1] += par_off[1];\n\t\t\t\t\t\toffset[2] += par_off[2];\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0] + from_len;\n\t\t\t\t\t\toffset[1] -= par_off[1];\n\t\t\t\t\t\toffset[2] -= par_off[2];\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tcase +1:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[0] += from_len;\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0] + to_len;\n\t\t\t\t\t\toffset[1] += par_off[1];\n\t\t\t\t\t\toffset[2] += par_off[2];\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0] - from_len;\n\t\t\t\t\t\toffset[1] -= par_off[1];\n\t\t\t\t\t\toffset[2] -= par_off[2];\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tcase -2:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[1] -= from_len;\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0];\n\t\t\t\t\t\toffset[1] += par_off[1] - to_len;\n\t\t\t\t\t\toffset[2] += par_off[2];\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0];\n\t\t\t\t\t\toffset[1] -= par_off[1] + from_len;\n\t\t\t\t\t\toffset[2] -= par_off[2];\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tcase +2:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[1] += from_len;\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0];\n\t\t\t\t\t\toffset[1] += par_off[1] + to_len;\n\t\t\t\t\t\toffset[2] += par_off[2];\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0];\n\t\t\t\t\t\toffset[1] -= par_off[1] - from_len;\n\t\t\t\t\t\toffset[2] -= par_off[2];\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tcase -3:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[2] -= from_len;\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0];\n\t\t\t\t\t\toffset[1] += par_off[1];\n\t\t\t\t\t\toffset[2] += par_off[2] - to_len;\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0];\n\t\t\t\t\t\toffset[1] -= par_off[1];\n\t\t\t\t\t\toffset[2] -= par_off[2] + from_len;\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tcase +3:\n\t\t\t\tif (from_len == to_len) {\n\t\t\t\t\toffset[2] += from_len;\n\t\t\t\t} else {\n\t\t\t\t\tif (from_len < to_len) {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(from);\n\t\t\t\t\t\toffset[0] += par_off[0];\n\t\t\t\t\t\toffset[1] += par_off[1];\n\t\t\t\t\t\toffset[2] += par_off[2] + to_len;\n\t\t\t\t\t} else {\n\t\t\t\t\t\tconst auto par_off = get_parent_offset(to);\n\t\t\t\t\t\toffset[0] -= par_off[0];\n\t\t\t\t\t\toffset[1] -= par_off[1];\n\t\t\t\t\t\toffset[2] -= par_off[2] - from_len;\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tdefault:\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "("\n\t\t\t\t\t+ std::to_string(__LINE__) + ") "\n\t\t\t\t\t+ std::to_string(direction)\n\t\t\t\t);\n\t\t\t}\n\t\t\treturn offset;\n\t\t};\n\n\t\tstd::vector<std::pair<uint64_t, std::array<int, 3>>> return_neighbors;\n\n\t\tfor (const auto& hood: neighborhood) {\n\t\t\t// find neighbors within these offsets of indices\n\t\t\tconst std::array<int, 3>\n\t\t\t\toff_start{\n\t\t\t\t\thood[0] * cell_length,\n\t\t\t\t\thood[1] * cell_length,\n\t\t\t\t\thood[2] * cell_length\n\t\t\t\t},\n\t\t\t\toff_end{\n\t\t\t\t\t(hood[0] + 1) * cell_length - 1,\n\t\t\t\t\t(hood[1] + 1) * cell_length - 1,\n\t\t\t\t\t(hood[2] + 1) * cell_length - 1\n\t\t\t\t};\n\n\t\t\tstd::array<int, 3> offset{0, 0, 0};\n\t\t\t// find a cell within required offsets\n\t\t\tuint64_t current = cell;\n\t\t\tint curr_len = get_len_int(current);\n\t\t\twhile (\n\t\t\t\t   offset[0] + curr_len - 1 < off_start[0] or offset[0] > off_end[0]\n\t\t\t\tor offset[1] + curr_len - 1 < off_start[1] or offset[1] > off_end[1]\n\t\t\t\tor offset[2] + curr_len - 1 < off_start[2] or offset[2] > off_end[2]\n\t\t\t) {\n\t\t\t\tif (this->neighbors_.count(current) == 0) {\n\t\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + ") "\n\t\t\t\t\t\t"No neighbors_ for cell " + to_string(current)\n\t\t\t\t\t);\n\t\t\t\t}\n\t\t\t\tconst auto& neighs = this->neighbors_.at(current);\n\n\t\t\t\tif (offset[0] > off_end[0]) {\n\t\t\t\t\tif (neighs[0] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[0], -1);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[0];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tif (offset[0] + curr_len - 1 < off_start[0]) {\n\t\t\t\t\tif (neighs[1] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[1], +1);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[1];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (offset[1] > off_end[1]) {\n\t\t\t\t\tif (neighs[2] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[2], -2);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[2];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tif (offset[1] + curr_len - 1 < off_start[1]) {\n\t\t\t\t\tif (neighs[3] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[3], +2);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[3];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (offset[2] > off_end[2]) {\n\t\t\t\t\tif (neighs[4] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[4], -3);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[4];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tif (offset[2] + curr_len - 1 < off_start[2]) {\n\t\t\t\t\tif (neighs[5] != error_cell) {\n\t\t\t\t\t\toffset = adjust_offset(offset, current, neighs[5], +3);\n\t\t\t\t\t}\n\t\t\t\t\tcurrent = neighs[5];\n\t\t\t\t\tif (current == error_cell) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tcurr_len = get_len_int(current);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + "): Internal error");\n\t\t\t}\n\n\t\t\tif (current == error_cell) {\n\t\t\t\tcontinue;\n\t\t\t}\n\n\t\t\tcurr_len = get_len_int(current);\n\t\t\tif (curr_len >= cell_length) {\n\t\t\t\treturn_neighbors.emplace_back(current, offset);\n\t\t\t\tcontinue;\n\t\t\t}\n\n\t\t\t// also add siblings\n\t\t\tconst auto siblings = this->mapping.get_siblings(current);\n\t\t\tsize_t current_i = 0;\n\t\t\tfor (; current_i < siblings.size(); current_i++) {\n\t\t\t\tif (current == siblings[current_i]) {\n\t\t\t\t\tbreak;\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tif (current_i >= siblings.size() or current != siblings[current_i]) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + "): Internal error");\n\t\t\t}\n\n\t\t\t// adjust offset to sibling closest to 0,0,0\n\t\t\tif (current_i % 2 > 0) {\n\t\t\t\toffset[0] -= curr_len;\n\t\t\t}\n\t\t\tif (current_i % 4 > 1) {\n\t\t\t\toffset[1] -= curr_len;\n\t\t\t}\n\t\t\tif (current_i > 3) {\n\t\t\t\toffset[2] -= curr_len;\n\t\t\t}\n\n\t\t\tsize_t i = 0;\n\t\t\tfor (auto off_z: {0, curr_len}) {\n\t\t\tfor (auto off_y: {0, curr_len}) {\n\t\t\tfor (auto off_x: {0, curr_len}) {\n\t\t\t\treturn_neighbors.push_back({\n\t\t\t\t\tsiblings[i++],\n\t\t\t\t\t{offset[0] + off_x, offset[1] + off_y, offset[2] + off_z}\n\t\t\t\t});\n\t\t\t}}}\n\t\t}\n\n\t\treturn return_neighbors;\n\t}\n\n\n\n\t/*!\n\tReturns cells that consider given cell as a neighbor.\n\n\tIf given cell is owned by another process returned\n\tneighbors_to might not be complete.\n\n\tReturns nothing in following cases:\n\t\t- current process doesn\'t know about given cell\n\t\t- given error_cell\n\n\tReturned cells are not in any particular order.\n\n\tReturned offset are all 0.\n\n\tReturned cells are unique, i.e. each cell only appears once.\n\n\tAssumes a maximum refinement level difference of one between neighbors\n\t(both cases: neighbors_of, neighbors_to).\n\t*/\n\tstd::vector<\n\t\tstd::pair<\n\t\t\tuint64_t,\n\t\t\tstd::array<int, 3>\n\t\t>\n\t> find_neighbors_to(\n\t\tconst uint64_t cell,\n\t\tconst std::vector<Types<3>::neighborhood_item_t>& neighborhood\n\t) const {\n\t\tusing std::to_string;\n\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tstd::vector<std::pair<uint64_t, std::array<int, 3>>> return_neighbors;\n\n\t\tif (\n\t\t\tcell == error_cell\n\t\t\tor cell > this->mapping.get_last_cell()\n\t\t\tor cell != this->get_child(cell)\n\t\t) {\n\t\t\tthrow std::invalid_argument(\n\t\t\t\t__FILE__ "(" + to_string(__LINE__) + ") "\n\t\t\t\t+ to_string(cell) + ", " + to_string(this->get_child(cell))\n\t\t\t\t+ ", " + to_string(this->mapping.get_last_cell())\n\t\t\t\t+ ", " + to_string(this->cell_process.count(cell))\n\t\t\t);\n\t\t}\n\n\t\tconst int refinement_level = this->mapping.get_refinement_level(cell);\n\n\t\t#ifdef DEBUG\n\t\tif (refinement_level > this->mapping.get_maximum_refinement_level()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Refinement level (" << refinement_level\n\t\t\t\t<< ") of cell " << cell\n\t\t\t\t<< " exceeds maximum refinement level of the grid ("\n\t\t\t\t<< this->mapping.get_maximum_refinement_level() << ")"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (refinement_level < 0) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Refinement level of cell " << cell\n\t\t\t\t<< " is less than 0: " << refinement_level\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tstd::unordered_map<uint64_t, std::array<int, 3>> unique_neighbors;\n\n\t\t// neighbor_to larger than given cell\n\t\tif (refinement_level > 0) {\n\t\t\tconst auto parent = this->mapping.get_parent(cell);\n\t\t\tconst auto indices = this->mapping.get_indices(parent);\n\t\t\tconst auto length_in_indices = this->mapping.get_cell_length_in_indices(parent);\n\n\t\t\tconst auto search_indices = this->indices_from_neighborhood(\n\t\t\t\tindices,\n\t\t\t\tlength_in_indices,\n\t\t\t\tneighborhood\n\t\t\t);\n\n\t\t\tfor (size_t i = 0; i < search_indices.size(); i++) {\n\t\t\t\tconst auto& search_index = search_indices[i];\n\n\t\t\t\tif (search_index[0] == error_index) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tconst uint64_t found\n\t\t\t\t\t= this->mapping.get_cell_from_indices(search_index, refinement_level - 1);\n\n\t\t\t\t// only add if found cell doesn\'t have children\n\t\t\t\tif (found == this->get_child(found)) {\n\t\t\t\t\tunique_neighbors[found] = {0, 0, 0};\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\t// neighbor_to smaller than given cell\n\t\tif (refinement_level < this->mapping.get_maximum_refinement_level()) {\n\n\t\t\tconst auto children = this->mapping.get_all_children(cell);\n\t\t\t#ifdef DEBUG\n\t\t\tif (children[0] == error_cell) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " No children for cell " << cell\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tconst uint64_t length_in_indices = this->mapping.get_cell_length_in_indices(children[0]);\n\n\t\t\tfor (const auto child: children) {\n\n\t\t\t\tconst Types<3>::indices_t indices = this->mapping.get_indices(child);\n\n\t\t\t\tstd::vector<Types<3>::indices_t> search_indices = this->indices_from_neighborhood(\n\t\t\t\t\tindices,\n\t\t\t\t\tlength_in_indices,\n\t\t\t\t\tneighborhood\n\t\t\t\t);\n\n\t\t\t\tfor (const auto& search_index: search_indices) {\n\n\t\t\t\t\tif (search_index[0] == error_index) {\n\t\t\t\t\t\tcontinue;\n\t\t\t\t\t}\n\n\t\t\t\t\tconst uint64_t found\n\t\t\t\t\t\t= this->mapping.get_cell_from_indices(search_index, refinement_level + 1);\n\n\t\t\t\t\tif (found == this->get_child(found)) {\n\t\t\t\t\t\tunique_neighbors[found] = {0, 0, 0};\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\t// neighbors_to of the same size as given cell\n\t\tconst Types<3>::indices_t indices = this->mapping.get_indices(cell);\n\t\tconst uint64_t length_in_indices = this->mapping.get_cell_length_in_indices(cell);\n\n\t\tstd::vector<Types<3>::indices_t> search_indices = this->indices_from_neighborhood(\n\t\t\tindices,\n\t\t\tlength_in_indices,\n\t\t\tneighborhood\n\t\t);\n\n\t\tfor (const auto& search_index: search_indices) {\n\n\t\t\tif (search_index[0] == error_index) {\n\t\t\t\tcontinue;\n\t\t\t}\n\n\t\t\tconst uint64_t found = this->mapping.get_cell_from_indices(search_index, refinement_level);\n\t\t\tif (found == this->get_child(found)) {\n\t\t\t\tunique_neighbors[found] = {0, 0, 0};\n\t\t\t}\n\t\t}\n\n\t\treturn_neighbors.reserve(unique_neighbors.size());\n\n\t\tfor (const auto& neighbor: unique_neighbors) {\n\t\t\treturn_neighbors.push_back(neighbor);\n\t\t}\n\n\t\treturn return_neighbors;\n\t}\n\n\n\t/*!\n\tReturns unique cells within given rectangular box and refinement levels (both inclusive).\n\n\tCells within given volume are always returned in the following order:\n\tStarting from the corner closest to the starting corner of the grid cells are returned\n\tfirst in the positive x direction then y direction and finally z direction.\n\t*/\n\t// TODO: make private?\n\tstd::vector<uint64_t> find_cells(\n\t\tconst Types<3>::indices_t indices_min,\n\t\tconst Types<3>::indices_t indices_max,\n\t\tconst int minimum_refinement_level,\n\t\tconst int maximum_refinement_level\n\t) const {\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t// size of cells in indices of given maximum_refinement_level\n\t\tconst uint64_t index_increase\n\t\t\t= uint64_t(1) << (this->mapping.get_maximum_refinement_level() - maximum_refinement_level);\n\n\t\t#ifdef DEBUG\n\t\tif (minimum_refinement_level > maximum_refinement_level) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Invalid refinement levels given"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (maximum_refinement_level > this->mapping.get_maximum_refinement_level()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Invalid maximum refinement level given"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\t// check that outer shell makes sense\n\t\tif (indices_min[0] > indices_max[0]) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " minimum x index > maximum x index"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (indices_min[1] > indices_max[1]) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " minimum y index > maximum y index"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (indices_min[2] > indices_max[2]) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " minimum z index > maximum z index"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tstd::vector<uint64_t> result;\n\t\tstd::unordered_set<uint64_t> uniques;\n\n\t\tTypes<3>::indices_t indices = {{0, 0, 0}};\n\t\tfor (indices[2] = indices_min[2]; indices[2] <= indices_max[2]; indices[2] += index_increase)\n\t\tfor (indices[1] = indices_min[1]; indices[1] <= indices_max[1]; indices[1] += index_increase)\n\t\tfor (indices[0] = indices_min[0]; indices[0] <= indices_max[0]; indices[0] += index_increase) {\n\n\t\t\tconst uint64_t cell\n\t\t\t\t= this->get_existing_cell(\n\t\t\t\t\tindices,\n\t\t\t\t\tminimum_refinement_level,\n\t\t\t\t\tmaximum_refinement_level\n\t\t\t\t);\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (cell == error_cell) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " No cell found between refinement levels [" << minimum_refinement_level\n\t\t\t\t\t<< ", " << maximum_refinement_level\n\t\t\t\t\t<< "] at indices " << indices[0]\n\t\t\t\t\t<< " " << indices[1]\n\t\t\t\t\t<< " " << indices[2]\n\t\t\t\t\t<< std::endl;\n\n\t\t\t\tconst uint64_t smallest\n\t\t\t\t\t= this->get_existing_cell(indices, 0, this->mapping.get_maximum_refinement_level());\n\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " smallest cell there is " << smallest\n\t\t\t\t\t<< " with refinement level " << this->mapping.get_refinement_level(smallest)\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->cell_process.count(cell) == 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << cell\n\t\t\t\t\t<< " doesn\'t exist"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (cell > this->mapping.get_last_cell()) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " Cell can\'t exist" << std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\t/*\n\t\t\tWhen searching for neighbors_to, cells may exist with larger refinement\n\t\t\tlevel than given in find_neighbors_to and shouldn\'t be considered.\n\t\t\t*/\n\t\t\tif (cell != this->get_child(cell)) {\n\t\t\t\tcontinue;\n\t\t\t}\n\n\t\t\t// don\'t add the same cell twice\n\t\t\tif (uniques.count(cell) == 0) {\n\t\t\t\tuniques.insert(cell);\n\t\t\t\tresult.push_back(cell);\n\t\t\t}\n\t\t}\n\n\t\treturn result;\n\t}\n\n\n\t/*!\n\tAn asynchronous version of update_copies_of_remote_neighbors().\n\n\tStarts remote neighbor data updates and returns immediately.\n\tUse e.g. wait_remote_neighbors_copy_updates() to make sure cell\n\tdata has been transferred.\n\n\t\\see\n\twait_remote_neighbor_copy_updates()\n\tstart_remote_neighbor_copy_receives()\n\tstart_remote_neighbor_copy_sends()\n\tupdate_copies_of_remote_neighbors()\n\t*/\n\tbool start_remote_neighbor_copy_updates(\n\t\tconst int neighborhood_id = default_neighborhood_id\n\t) {\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (this->balancing_load) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " start_remote_neighbor_data_update(...) called while balancing load"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tbool ret_val = true;\n\n\t\tif (!this->start_remote_neighbor_copy_receives(neighborhood_id)) {\n\t\t\tret_val = false;\n\t\t}\n\n\t\tif (!this->start_remote_neighbor_copy_sends(neighborhood_id)) {\n\t\t\tret_val = false;\n\t\t}\n\n\t\treturn ret_val;\n'), ('\tvoid update_remote_neighbor_info()\n\t{', '\tvoid rebuild_user_neighbors()\n\t{\n\t\tfor (const auto& hood: this->user_hood_of) {\n\t\t\tconst int id = hood.first;\n\t\t\tthis->user_neigh_of.at(id).clear();\n\t\t\tthis->user_neigh_to.at(id).clear();\n\t\t\tfor (const auto& cell: this->cell_process) {\n\t\t\t\tthis->update_user_neighbors(cell.first, id);\n\t\t\t}\n\t\t}\n\t}\n\n\tvoid update_remote_neighbor_info()\n\t{'))
same('q-ib', ('\t\t// default construct user data of arriving cells\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::const_iterator\n\t\t\tsender_item = this->cells_to_receive.begin();\n\t\t\tsender_item != this->cells_to_receive.end();\n\t\t\tsender_item++\n\t\t) {\n\t\t\tfor (std::vector<std::pair<uint64_t, int>>::const_iterator\n\t\t\t\tcell_item = sender_item->second.begin();\n\t\t\t\tcell_item != sender_item->second.end();\n\t\t\t\tcell_item++\n\t\t\t) {\n\t\t\t\tthis->cell_data[cell_item->first];\n\t\t\t}\n\t\t}\n\n\t\t// clear data related to remote neighbor updates, adaptation, etc.\n\t\tthis->local_cells_on_process_boundary.clear();\n\t\tthis->remote_cells_on_process_boundary.clear();\n\t\tthis->user_local_cells_on_process_boundary.clear();\n\t\tthis->user_remote_cells_on_process_boundary.clear();\n\t\tthis->user_neigh_cells_to_send.clear();\n\t\tthis->user_neigh_cells_to_receive.clear();\n\t\tthis->remote_neighbors.clear();\n\t\tthis->cells_to_refine.clear();\n\t\tthis->refined_cell_data.clear();\n\t\tthis->cells_to_unrefine.clear();\n\t\tthis->unrefined_cell_data.clear();\n\t\tthis->cells_not_to_refine.clear();\n\t\tthis->cells_not_to_unrefine.clear();\n\t\tthis->cell_weights.clear();\n\n\t\t#ifdef DEBUG\n', '\t\tthis->discard_before_balancing();\n\n\t\tfor (const auto& sender: this->cells_to_receive) {\n\t\t\tfor (const auto& item: sender.second) {\n\t\t\t\tthis->cell_data[item.first] = Cell_Data();\n\t\t\t}\n\t\t}\n\n\t\t#ifdef DEBUG\n'), ('\tvoid update_remote_neighbor_info()\n\t{', '\tvoid discard_before_balancing()\n\t{\n\t\tthis->cell_weights.clear();\n\t\tthis->cells_to_refine.clear();\n\t\tthis->cells_to_unrefine.clear();\n\t\tthis->cells_not_to_refine.clear();\n\t\tthis->cells_not_to_unrefine.clear();\n\t\tthis->refined_cell_data.clear();\n\t\tthis->unrefined_cell_data.clear();\n\t\tthis->remote_neighbors.clear();\n\t\tthis->local_cells_on_process_boundary.clear();\n\t\tthis->remote_cells_on_process_boundary.clear();\n\t\tthis->user_local_cells_on_process_boundary.clear();\n\t\tthis->user_remote_cells_on_process_boundary.clear();\n\t\tthis->user_neigh_cells_to_send.clear();\n\t\tthis->user_neigh_cells_to_receive.clear();\n\t}\n\n\tvoid update_remote_neighbor_info()\n\t{'))
same('q-getcells', ('\t\t\tif (criteria.size() == 0) {\n\t\t\t\tret_val.push_back(cell);\n\t\t\t\tcontinue;\n\t\t\t}\n\n\t\t\tif (this->is_neighbor_type_match(\n\t\t\t\tcell,\n\t\t\t\tcriteria,\n\t\t\t\texact_match,\n\t\t\t\tneighborhood_id\n\t\t\t)) {\n\t\t\t\tret_val.push_back(cell);\n\t\t\t}\n\t\t}\n\n\t\tif (sorted && ret_val.size() > 0) {\n\t\t\tstd::sort(ret_val.begin(), ret_val.end());\n\t\t}\n\n', '\t\t\tconst bool wanted = criteria.empty() or this->is_neighbor_type_match(\n\t\t\t\tcell, criteria, exact_match, neighborhood_id\n\t\t\t);\n\t\t\tif (wanted) {\n\t\t\t\tret_val.push_back(cell);\n\t\t\t}\n\t\t}\n\n\t\tif (sorted) {\n\t\t\tstd::sort(ret_val.begin(), ret_val.end());\n\t\t}\n\n'))
same('r-wait-range', ('\tbool wait_user_data_transfer_receives()\n\t{\n\t\tbool success = true;\n\t\tint ret_val = -1;\n\n\t\tfor (std::unordered_map<int, std::vector<MPI_Request>>::iterator\n\t\t\tprocess = this->receive_requests.begin();\n\t\t\tprocess != this->receive_requests.end();\n\t\t\tprocess++\n\t\t) {\n\t\t\tstd::vector<MPI_Status> statuses;\n\t\t\tstatuses.resize(process->second.size());\n\n\t\t\tret_val = MPI_Waitall(process->second.size(), &(process->second[0]), &(statuses[0]));\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tfor (const auto& status: statuses) {\n\t\t\t\t\tif (status.MPI_ERROR != MPI_SUCCESS) {\n\t\t\t\t\t\tsuccess = false;\n\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t<< " MPI receive failed from process " << status.MPI_SOURCE\n\t\t\t\t\t\t\t<< " with tag " << status.MPI_TAG\n\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\tthis->receive_requests.clear();\n\n\t\treturn success;\n\t}\n\n\n', '\tbool wait_user_data_transfer_receives()\n\t{\n\t\tbool success = true;\n\n\t\tfor (auto& item: this->receive_requests) {\n\t\t\tauto& requests = item.second;\n\t\t\tstd::vector<MPI_Status> statuses(requests.size());\n\t\t\tif (MPI_Waitall(int(requests.size()), requests.data(), statuses.data()) == MPI_SUCCESS) {\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\tfor (const auto& status: statuses) {\n\t\t\t\tif (status.MPI_ERROR != MPI_SUCCESS) {\n\t\t\t\t\tsuccess = false;\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t\tthis->receive_requests.clear();\n\t\treturn success;\n\t}\n\n'))
same('r-wait-helper', ('\tbool wait_user_data_transfer_receives()\n\t{\n\t\tbool success = true;\n\t\tint ret_val = -1;\n\n\t\tfor (std::unordered_map<int, std::vector<MPI_Request>>::iterator\n\t\t\tprocess = this->receive_requests.begin();\n\t\t\tprocess != this->receive_requests.end();\n\t\t\tprocess++\n\t\t) {\n\t\t\tstd::vector<MPI_Status> statuses;\n\t\t\tstatuses.resize(process->second.size());\n\n\t\t\tret_val = MPI_Waitall(process->second.size(), &(process->second[0]), &(statuses[0]));\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tfor (const auto& status: statuses) {\n\t\t\t\t\tif (status.MPI_ERROR != MPI_SUCCESS) {\n\t\t\t\t\t\tsuccess = false;\n\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t<< " MPI receive failed from process " << status.MPI_SOURCE\n\t\t\t\t\t\t\t<< " with tag " << status.MPI_TAG\n\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\tthis->receive_requests.clear();\n\n\t\treturn success;\n\t}\n\n\n', '\t//! waits for and forgets given requests, returns false if any failed\n\tbool wait_all(std::unordered_map<int, std::vector<MPI_Request>>& all_requests)\n\t{\n\t\tbool success = true;\n\t\tfor (auto& item: all_requests) {\n\t\t\tstd::vector<MPI_Status> statuses(item.second.size());\n\t\t\tconst int ret_val = MPI_Waitall(item.second.size(), &(item.second[0]), &(statuses[0]));\n\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__ << " MPI transfer failed" << std::endl;\n\t\t\t\tsuccess = false;\n\t\t\t}\n\t\t}\n\t\tall_requests.clear();\n\t\treturn success;\n\t}\n\n\tbool wait_user_data_transfer_receives()\n\t{\n\t\treturn this->wait_all(this->receive_requests);\n\t}\n\n'), ('\tbool wait_user_data_transfer_sends()\n\t{\n\t\tfor (std::unordered_map<int, std::vector<MPI_Request>>::iterator\n\t\t\tprocess = this->send_requests.begin();\n\t\t\tprocess != this->send_requests.end();\n\t\t\tprocess++\n\t\t) {\n\t\t\tstd::vector<MPI_Status> statuses;\n\t\t\tstatuses.resize(process->second.size());\n\n\t\t\tif (\n\t\t\t\tMPI_Waitall(process->second.size(), &(process->second[0]), &(statuses[0]))\n\t\t\t\t!= MPI_SUCCESS\n\t\t\t) {\n\t\t\t\tfor (const auto& status: statuses) {\n\t\t\t\t\tif (status.MPI_ERROR != MPI_SUCCESS) {\n\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t<< " MPI receive failed from process " << status.MPI_SOURCE\n\t\t\t\t\t\t\t<< " with tag " << status.MPI_TAG\n\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\tabort();\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\tthis->send_requests.clear();\n\n\t\treturn true;\n\t}\n\n', '\tbool wait_user_data_transfer_sends()\n\t{\n\t\tif (!this->wait_all(this->send_requests)) {\n\t\t\tabort();\n\t\t}\n\t\treturn true;\n\t}\n\n'))
same('r-copy-direct', ('\tbool start_remote_neighbor_copy_sends(\n\t\tconst int neighborhood_id = default_neighborhood_id\n\t) {\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (this->balancing_load) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " start_remote_neighbor_data_update(...) called while balancing load"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tbool ret_val = true;\n\n\t\tif (neighborhood_id == default_neighborhood_id) {\n\t\t\treturn this->start_user_data_sends(this->cells_to_send, neighborhood_id);\n\t\t}\n\n\t\tif (this->user_hood_of.count(neighborhood_id) == 0) {\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->user_hood_to.count(neighborhood_id) > 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Should not have id " << neighborhood_id\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->user_neigh_of.count(neighborhood_id) > 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Should not have id " << neighborhood_id\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->user_neigh_to.count(neighborhood_id) > 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Should not have id " << neighborhood_id\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\treturn false;\n\t\t}\n\n\t\t#ifdef DEBUG\n\t\tif (this->user_hood_to.count(neighborhood_id) == 0) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Should have id " << neighborhood_id\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (this->user_neigh_of.count(neighborhood_id) == 0) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Should have id " << neighborhood_id\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (this->user_neigh_to.count(neighborhood_id) == 0) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Should have id " << neighborhood_id\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (this->user_neigh_cells_to_send.count(neighborhood_id) == 0) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Should have id " << neighborhood_id\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (this->user_neigh_cells_to_receive.count(neighborhood_id) == 0) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Should have id " << neighborhood_id\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tif (!this->start_user_data_sends(\n\t\t\tthis->user_neigh_cells_to_send.at(neighborhood_id),\n\t\t\tneighborhood_id\n\t\t)) {\n\t\t\tret_val = false;\n\t\t}\n\n\t\treturn ret_val;\n\t}\n\n\n\t/*!\n\tFinishes what start_remote_neighbor_data_update() started.\n\n\t\\see\n\tstart_remote_neighbor_copy_updates()\n\t*/\n', '\tbool start_remote_neighbor_copy_sends(\n\t\tconst int neighborhood_id = default_neighborhood_id\n\t) {\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (this->balancing_load) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " start_remote_neighbor_data_update(...) called while balancing load"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\n\t\tif (neighborhood_id == default_neighborhood_id) {\n\t\t\treturn this->start_user_data_sends(this->cells_to_send, neighborhood_id);\n\t\t}\n\n\t\tif (this->user_hood_of.count(neighborhood_id) == 0) {\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (this->user_hood_to.count(neighborhood_id) > 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Should not have id " << neighborhood_id\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->user_neigh_of.count(neighborhood_id) > 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Should not have id " << neighborhood_id\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\n\t\t\tif (this->user_neigh_to.count(neighborhood_id) > 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Should not have id " << neighborhood_id\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\treturn false;\n\t\t}\n\n\t\t#ifdef DEBUG\n\t\tif (this->user_hood_to.count(neighborhood_id) == 0) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Should have id " << neighborhood_id\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (this->user_neigh_of.count(neighborhood_id) == 0) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Should have id " << neighborhood_id\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (this->user_neigh_to.count(neighborhood_id) == 0) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Should have id " << neighborhood_id\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (this->user_neigh_cells_to_send.count(neighborhood_id) == 0) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Should have id " << neighborhood_id\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\n\t\tif (this->user_neigh_cells_to_receive.count(neighborhood_id) == 0) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Should have id " << neighborhood_id\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\treturn this->start_user_data_sends(this->user_neigh_cells_to_send.at(neighborhood_id), neighborhood_id);\n\t}\n\n\n\t/*!\n\tFinishes what start_remote_neighbor_data_update() started.\n\n\t\\see\n\tstart_remote_neighbor_copy_updates()\n\t*/\n'))
same('r-wait-and', ('\tbool wait_remote_neighbor_copy_updates(\n\t\tconst int neighborhood_id = default_neighborhood_id\n\t) {\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (this->balancing_load) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " wait_remote_neighbor_copy_updates(...) called while balancing load"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tbool ret_val = true;\n\n\t\tif (!this->wait_remote_neighbor_copy_update_receives(neighborhood_id)) {\n\t\t\tret_val = false;\n\t\t}\n\t\tif (!this->wait_remote_neighbor_copy_update_sends()) {\n\t\t\tret_val = false;\n\t\t}\n\n\t\treturn ret_val;\n\t}\n\n\n\t/*!\n\tWaits for sends started by start_remote_neighbor_copy_updates().\n\n\t\\see\n\tstart_remote_neighbor_copy_updates()\n\t*/\n', '\tbool wait_remote_neighbor_copy_updates(\n\t\tconst int neighborhood_id = default_neighborhood_id\n\t) {\n\t\t#ifdef DEBUG\n\t\tif (not this->grid_initialized) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " DCCRG not initialized before calling " << __func__\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t#ifndef DCCRG_NO_LB\n\t\tif (this->balancing_load) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " wait_remote_neighbor_copy_updates(...) called while balancing load"\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\tconst bool received = this->wait_remote_neighbor_copy_update_receives(neighborhood_id);\n\t\tconst bool sent = this->wait_remote_neighbor_copy_update_sends();\n\t\treturn received and sent;\n\t}\n\n\n\t/*!\n\tWaits for sends started by start_remote_neighbor_copy_updates().\n\n\t\\see\n\tstart_remote_neighbor_copy_updates()\n\t*/\n'))
same('r-ptr-split', ('\tvoid update_cell_pointers(\n\t\tstd::vector<Cells_Item>& cells,\n\t\tstd::vector<Neighbors_Item>& neighbors,\n\t\tIterator_Storage<Cells_Item>& inner_cells,\n\t\tIterator_Storage<Cells_Item>& outer_cells,\n\t\tIterator_Storage<Cells_Item>& local_cells,\n\t\tIterator_Storage<Cells_Item>& remote_cells,\n\t\tIterator_Storage<Cells_Item>& all_cells,\n\t\tconst int neighborhood_id\n\t) {\n\t\tusing std::to_string;\n\n\t\tcells.clear();\n\t\tneighbors.clear();\n\n\t\tcells.reserve(this->cell_data.size());\n\t\t// at least this much should be needed\n\t\tneighbors.reserve(2 * this->cell_data.size());\n\n\t\tsize_t nr_inner = 0, nr_outer = 0, nr_remote = 0;\n\n\t\tstd::vector<uint64_t> ordered_cells;\n\t\tordered_cells.reserve(this->cell_data.size());\n\n\t\tconst auto& on_proc_bdy = [&](){\n\t\t\tif (neighborhood_id == default_neighborhood_id) {\n\t\t\t\treturn this->local_cells_on_process_boundary;\n\t\t\t}\n\t\t\tif (this->user_hood_of.count(neighborhood_id) > 0) {\n\t\t\t\treturn this->user_local_cells_on_process_boundary.at(neighborhood_id);\n\t\t\t}\n\t\t\tthrow std::runtime_error(\n\t\t\t\t__FILE__ "(" + to_string(__LINE__) + ") " + to_string(neighborhood_id)\n\t\t\t);\n\t\t}();\n\n\t\t// local cells without remote neighbors\n\t\tfor (const auto& item: this->cell_data) {\n\t\t\tif (on_proc_bdy.count(item.first) > 0) {\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\tordered_cells.push_back(item.first);\n\t\t\tnr_inner++;\n\t\t\tif (this->cell_data.count(item.first) == 0) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + "): " + to_string(item.first)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\t\t// local cells with remote neighbor(s)\n\t\tfor (const auto& item: this->cell_data) {\n\t\t\tif (on_proc_bdy.count(item.first) == 0) {\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\tordered_cells.push_back(item.first);\n\t\t\tnr_outer++;\n\t\t\tif (this->cell_data.count(item.first) == 0) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + "): " + to_string(item.first)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\t\t// remote cells with local neighbor(s)\n\t\tfor (const auto& cell: this->remote_cells_on_process_boundary) {\n\t\t\tordered_cells.push_back(cell);\n\t\t\tnr_remote++;\n\t\t\tif (this->remote_neighbors.count(cell) == 0) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\t\t}\n\n\t\t/*\n\t\tCannot store iterators to neighbors_rw vector while\n\t\tadding items, fill out iterators from this after\n\t\tcell loop.\n\n\t\t[0] == number of previous cells\' neighbors\n\t\t[1] == number of only neighbors_of items\n\t\t[2] == number of both neighbors_of and _to items\n\t\t[3] == number of only neighbors_to items\n\t\t*/\n\t\tstd::vector<std::array<size_t, 4>> nr_neighbors(ordered_cells.size());\n\n\t\tfor (size_t i = 0; i < ordered_cells.size(); i++) {\n\t\t\tnr_neighbors[i][0] = neighbors.size();\n\n\t\t\tconst auto cell = ordered_cells[i];\n\t\t\tif (cell == error_cell) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\n\t\t\tCells_Item new_cells_item{};\n\t\t\tnew_cells_item.id = cell;\n\t\t\tnew_cells_item.data = this->operator[](cell);\n\t\t\t// call user-defined update function(s)\n\t\t\tnew_cells_item.update_caller(*this, Additional_Cell_Items()...);\n\t\t\tcells.push_back(std::move(new_cells_item));\n\n\t\t\t/*\n\t\t\tPrepare data for creating cell\'s neighbor iterators\n\t\t\t*/\n\t\t\tconst auto\n\t\t\t\t*neighbors_of = this->get_neighbors_of(cell, neighborhood_id),\n\t\t\t\t*neighbors_to = this->get_neighbors_to(cell, neighborhood_id);\n\t\t\tif (neighbors_of == nullptr) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t+ "): No neighbors of list for cell "\n\t\t\t\t\t+ to_string(cell)\n\t\t\t\t);\n\t\t\t}\n\t\t\tif (neighbors_to == nullptr) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t+ "): No neighbors to list for cell "\n\t\t\t\t\t+ to_string(cell)\n\t\t\t\t);\n\t\t\t}\n\t\t\t#ifdef DEBUG\n\t\t\tfor (const auto& neighbor: *neighbors_of) {\n\t\t\t\tif (neighbor.first == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tif (\n\t\t\t\t\tneighbor.second[0] == 0\n\t\t\t\t\tand neighbor.second[1] == 0\n\t\t\t\t\tand neighbor.second[2] == 0\n\t\t\t\t) {\n\t\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t\t+ "): Invalid offset for neighbor " + to_string(neighbor.first)\n\t\t\t\t\t\t+ " of cell " + to_string(cell)\n\t\t\t\t\t);\n\t\t\t\t}\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tstd::set<std::pair<uint64_t, std::array<int, 3>>> ids_of, ids_to;\n\t\t\tfor (const auto& n: *neighbors_of) {\n\t\t\t\tif (n.first != error_cell) {\n\t\t\t\t\tids_of.insert(n);\n\t\t\t\t}\n\t\t\t}\n\t\t\tfor (const auto& n: *neighbors_to) {\n\t\t\t\tif (n.first != error_cell) {\n\t\t\t\t\t#ifdef DEBUG\n\t\t\t\t\tif (\n\t\t\t\t\t\tn.second[0] != 0\n\t\t\t\t\t\tand n.second[1] != 0\n\t\t\t\t\t\tand n.second[2] != 0\n\t\t\t\t\t) {\n\t\t\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t\t\t+ "): Neighbor_to " + to_string(n.first)\n\t\t\t\t\t\t\t+ " of cell " + to_string(cell)\n\t\t\t\t\t\t\t+ " has non-zero offset: " + to_string(n.second[0])\n\t\t\t\t\t\t\t+ "," + to_string(n.second[1])\n\t\t\t\t\t\t\t+ "," + to_string(n.second[2])\n\t\t\t\t\t\t);\n\t\t\t\t\t}\n\t\t\t\t\t#endif\n\t\t\t\t\tids_to.insert(n);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tstd::set<std::pair<uint64_t, std::array<int, 3>>> only_neighbors_of, only_neighbors_to, neighbors_both;\n\n\t\t\tfor (const auto& n: ids_to) {\n\t\t\t\tonly_neighbors_to.insert(n);\n\t\t\t}\n\t\t\tfor (const auto& n: ids_of) {\n\t\t\t\t// items in _to always have offset 0, 0, 0\n\t\t\t\tauto temp = n;\n\t\t\t\ttemp.second = {0, 0, 0};\n\n\t\t\t\tonly_neighbors_to.erase(temp);\n\n\t\t\t\tif (ids_to.count(temp) > 0) {\n\t\t\t\t\tneighbors_both.insert(n);\n\t\t\t\t} else {\n\t\t\t\t\tonly_neighbors_of.insert(n);\n\t\t\t\t}\n\t\t\t}\n\n', '\tvoid update_cell_pointers(\n\t\tstd::vector<Cells_Item>& cells,\n\t\tstd::vector<Neighbors_Item>& neighbors,\n\t\tIterator_Storage<Cells_Item>& inner_cells,\n\t\tIterator_Storage<Cells_Item>& outer_cells,\n\t\tIterator_Storage<Cells_Item>& local_cells,\n\t\tIterator_Storage<Cells_Item>& remote_cells,\n\t\tIterator_Storage<Cells_Item>& all_cells,\n\t\tconst int neighborhood_id\n\t) {\n\t\tusing std::to_string;\n\n\t\tcells.clear();\n\t\tneighbors.clear();\n\n\t\tcells.reserve(this->cell_data.size());\n\t\t// at least this much should be needed\n\t\tneighbors.reserve(2 * this->cell_data.size());\n\n\t\tsize_t nr_inner = 0, nr_outer = 0, nr_remote = 0;\n\n\t\tstd::vector<uint64_t> ordered_cells;\n\t\tordered_cells.reserve(this->cell_data.size());\n\n\t\tconst auto& on_proc_bdy = [&](){\n\t\t\tif (neighborhood_id == default_neighborhood_id) {\n\t\t\t\treturn this->local_cells_on_process_boundary;\n\t\t\t}\n\t\t\tif (this->user_hood_of.count(neighborhood_id) > 0) {\n\t\t\t\treturn this->user_local_cells_on_process_boundary.at(neighborhood_id);\n\t\t\t}\n\t\t\tthrow std::runtime_error(\n\t\t\t\t__FILE__ "(" + to_string(__LINE__) + ") " + to_string(neighborhood_id)\n\t\t\t);\n\t\t}();\n\n\t\tstd::vector<uint64_t> outer;\n\t\tfor (const auto& item: this->cell_data) {\n\t\t\tif (on_proc_bdy.count(item.first) == 0) {\n\t\t\t\tordered_cells.push_back(item.first);\n\t\t\t} else {\n\t\t\t\touter.push_back(item.first);\n\t\t\t}\n\t\t}\n\t\tnr_inner = ordered_cells.size();\n\t\tnr_outer = outer.size();\n\t\tordered_cells.insert(ordered_cells.end(), outer.begin(), outer.end());\n\n\t\t// remote cells with local neighbor(s)\n\t\tfor (const auto& cell: this->remote_cells_on_process_boundary) {\n\t\t\tordered_cells.push_back(cell);\n\t\t\tnr_remote++;\n\t\t\tif (this->remote_neighbors.count(cell) == 0) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\t\t}\n\n\t\t/*\n\t\tCannot store iterators to neighbors_rw vector while\n\t\tadding items, fill out iterators from this after\n\t\tcell loop.\n\n\t\t[0] == number of previous cells\' neighbors\n\t\t[1] == number of only neighbors_of items\n\t\t[2] == number of both neighbors_of and _to items\n\t\t[3] == number of only neighbors_to items\n\t\t*/\n\t\tstd::vector<std::array<size_t, 4>> nr_neighbors(ordered_cells.size());\n\n\t\tfor (size_t i = 0; i < ordered_cells.size(); i++) {\n\t\t\tnr_neighbors[i][0] = neighbors.size();\n\n\t\t\tconst auto cell = ordered_cells[i];\n\t\t\tif (cell == error_cell) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\n\t\t\tCells_Item new_cells_item{};\n\t\t\tnew_cells_item.id = cell;\n\t\t\tnew_cells_item.data = this->operator[](cell);\n\t\t\t// call user-defined update function(s)\n\t\t\tnew_cells_item.update_caller(*this, Additional_Cell_Items()...);\n\t\t\tcells.push_back(std::move(new_cells_item));\n\n\t\t\t/*\n\t\t\tPrepare data for creating cell\'s neighbor iterators\n\t\t\t*/\n\t\t\tconst auto\n\t\t\t\t*neighbors_of = this->get_neighbors_of(cell, neighborhood_id),\n\t\t\t\t*neighbors_to = this->get_neighbors_to(cell, neighborhood_id);\n\t\t\tif (neighbors_of == nullptr) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t+ "): No neighbors of list for cell "\n\t\t\t\t\t+ to_string(cell)\n\t\t\t\t);\n\t\t\t}\n\t\t\tif (neighbors_to == nullptr) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t+ "): No neighbors to list for cell "\n\t\t\t\t\t+ to_string(cell)\n\t\t\t\t);\n\t\t\t}\n\t\t\t#ifdef DEBUG\n\t\t\tfor (const auto& neighbor: *neighbors_of) {\n\t\t\t\tif (neighbor.first == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tif (\n\t\t\t\t\tneighbor.second[0] == 0\n\t\t\t\t\tand neighbor.second[1] == 0\n\t\t\t\t\tand neighbor.second[2] == 0\n\t\t\t\t) {\n\t\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t\t+ "): Invalid offset for neighbor " + to_string(neighbor.first)\n\t\t\t\t\t\t+ " of cell " + to_string(cell)\n\t\t\t\t\t);\n\t\t\t\t}\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tstd::set<std::pair<uint64_t, std::array<int, 3>>> ids_of, ids_to;\n\t\t\tfor (const auto& n: *neighbors_of) {\n\t\t\t\tif (n.first != error_cell) {\n\t\t\t\t\tids_of.insert(n);\n\t\t\t\t}\n\t\t\t}\n\t\t\tfor (const auto& n: *neighbors_to) {\n\t\t\t\tif (n.first != error_cell) {\n\t\t\t\t\t#ifdef DEBUG\n\t\t\t\t\tif (\n\t\t\t\t\t\tn.second[0] != 0\n\t\t\t\t\t\tand n.second[1] != 0\n\t\t\t\t\t\tand n.second[2] != 0\n\t\t\t\t\t) {\n\t\t\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t\t\t+ "): Neighbor_to " + to_string(n.first)\n\t\t\t\t\t\t\t+ " of cell " + to_string(cell)\n\t\t\t\t\t\t\t+ " has non-zero offset: " + to_string(n.second[0])\n\t\t\t\t\t\t\t+ "," + to_string(n.second[1])\n\t\t\t\t\t\t\t+ "," + to_string(n.second[2])\n\t\t\t\t\t\t);\n\t\t\t\t\t}\n\t\t\t\t\t#endif\n\t\t\t\t\tids_to.insert(n);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tstd::set<std::pair<uint64_t, std::array<int, 3>>> only_neighbors_of, only_neighbors_to, neighbors_both;\n\n\t\t\tfor (const auto& n: ids_to) {\n\t\t\t\tonly_neighbors_to.insert(n);\n\t\t\t}\n\t\t\tfor (const auto& n: ids_of) {\n\t\t\t\t// items in _to always have offset 0, 0, 0\n\t\t\t\tauto temp = n;\n\t\t\t\ttemp.second = {0, 0, 0};\n\n\t\t\t\tonly_neighbors_to.erase(temp);\n\n\t\t\t\tif (ids_to.count(temp) > 0) {\n\t\t\t\t\tneighbors_both.insert(n);\n\t\t\t\t} else {\n\t\t\t\t\tonly_neighbors_of.insert(n);\n\t\t\t\t}\n\t\t\t}\n\n'))
same('r-ptr-bdy', ('\tvoid update_cell_pointers(\n\t\tstd::vector<Cells_Item>& cells,\n\t\tstd::vector<Neighbors_Item>& neighbors,\n\t\tIterator_Storage<Cells_Item>& inner_cells,\n\t\tIterator_Storage<Cells_Item>& outer_cells,\n\t\tIterator_Storage<Cells_Item>& local_cells,\n\t\tIterator_Storage<Cells_Item>& remote_cells,\n\t\tIterator_Storage<Cells_Item>& all_cells,\n\t\tconst int neighborhood_id\n\t) {\n\t\tusing std::to_string;\n\n\t\tcells.clear();\n\t\tneighbors.clear();\n\n\t\tcells.reserve(this->cell_data.size());\n\t\t// at least this much should be needed\n\t\tneighbors.reserve(2 * this->cell_data.size());\n\n\t\tsize_t nr_inner = 0, nr_outer = 0, nr_remote = 0;\n\n\t\tstd::vector<uint64_t> ordered_cells;\n\t\tordered_cells.reserve(this->cell_data.size());\n\n\t\tconst auto& on_proc_bdy = [&](){\n\t\t\tif (neighborhood_id == default_neighborhood_id) {\n\t\t\t\treturn this->local_cells_on_process_boundary;\n\t\t\t}\n\t\t\tif (this->user_hood_of.count(neighborhood_id) > 0) {\n\t\t\t\treturn this->user_local_cells_on_process_boundary.at(neighborhood_id);\n\t\t\t}\n\t\t\tthrow std::runtime_error(\n\t\t\t\t__FILE__ "(" + to_string(__LINE__) + ") " + to_string(neighborhood_id)\n\t\t\t);\n\t\t}();\n\n\t\t// local cells without remote neighbors\n\t\tfor (const auto& item: this->cell_data) {\n\t\t\tif (on_proc_bdy.count(item.first) > 0) {\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\tordered_cells.push_back(item.first);\n\t\t\tnr_inner++;\n\t\t\tif (this->cell_data.count(item.first) == 0) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + "): " + to_string(item.first)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\t\t// local cells with remote neighbor(s)\n\t\tfor (const auto& item: this->cell_data) {\n\t\t\tif (on_proc_bdy.count(item.first) == 0) {\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\tordered_cells.push_back(item.first);\n\t\t\tnr_outer++;\n\t\t\tif (this->cell_data.count(item.first) == 0) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + "): " + to_string(item.first)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\t\t// remote cells with local neighbor(s)\n\t\tfor (const auto& cell: this->remote_cells_on_process_boundary) {\n\t\t\tordered_cells.push_back(cell);\n\t\t\tnr_remote++;\n\t\t\tif (this->remote_neighbors.count(cell) == 0) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\t\t}\n\n\t\t/*\n\t\tCannot store iterators to neighbors_rw vector while\n\t\tadding items, fill out iterators from this after\n\t\tcell loop.\n\n\t\t[0] == number of previous cells\' neighbors\n\t\t[1] == number of only neighbors_of items\n\t\t[2] == number of both neighbors_of and _to items\n\t\t[3] == number of only neighbors_to items\n\t\t*/\n\t\tstd::vector<std::array<size_t, 4>> nr_neighbors(ordered_cells.size());\n\n\t\tfor (size_t i = 0; i < ordered_cells.size(); i++) {\n\t\t\tnr_neighbors[i][0] = neighbors.size();\n\n\t\t\tconst auto cell = ordered_cells[i];\n\t\t\tif (cell == error_cell) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\n\t\t\tCells_Item new_cells_item{};\n\t\t\tnew_cells_item.id = cell;\n\t\t\tnew_cells_item.data = this->operator[](cell);\n\t\t\t// call user-defined update function(s)\n\t\t\tnew_cells_item.update_caller(*this, Additional_Cell_Items()...);\n\t\t\tcells.push_back(std::move(new_cells_item));\n\n\t\t\t/*\n\t\t\tPrepare data for creating cell\'s neighbor iterators\n\t\t\t*/\n\t\t\tconst auto\n\t\t\t\t*neighbors_of = this->get_neighbors_of(cell, neighborhood_id),\n\t\t\t\t*neighbors_to = this->get_neighbors_to(cell, neighborhood_id);\n\t\t\tif (neighbors_of == nullptr) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t+ "): No neighbors of list for cell "\n\t\t\t\t\t+ to_string(cell)\n\t\t\t\t);\n\t\t\t}\n\t\t\tif (neighbors_to == nullptr) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t+ "): No neighbors to list for cell "\n\t\t\t\t\t+ to_string(cell)\n\t\t\t\t);\n\t\t\t}\n\t\t\t#ifdef DEBUG\n\t\t\tfor (const auto& neighbor: *neighbors_of) {\n\t\t\t\tif (neighbor.first == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tif (\n\t\t\t\t\tneighbor.second[0] == 0\n\t\t\t\t\tand neighbor.second[1] == 0\n\t\t\t\t\tand neighbor.second[2] == 0\n\t\t\t\t) {\n\t\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t\t+ "): Invalid offset for neighbor " + to_string(neighbor.first)\n\t\t\t\t\t\t+ " of cell " + to_string(cell)\n\t\t\t\t\t);\n\t\t\t\t}\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tstd::set<std::pair<uint64_t, std::array<int, 3>>> ids_of, ids_to;\n\t\t\tfor (const auto& n: *neighbors_of) {\n\t\t\t\tif (n.first != error_cell) {\n\t\t\t\t\tids_of.insert(n);\n\t\t\t\t}\n\t\t\t}\n\t\t\tfor (const auto& n: *neighbors_to) {\n\t\t\t\tif (n.first != error_cell) {\n\t\t\t\t\t#ifdef DEBUG\n\t\t\t\t\tif (\n\t\t\t\t\t\tn.second[0] != 0\n\t\t\t\t\t\tand n.second[1] != 0\n\t\t\t\t\t\tand n.second[2] != 0\n\t\t\t\t\t) {\n\t\t\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t\t\t+ "): Neighbor_to " + to_string(n.first)\n\t\t\t\t\t\t\t+ " of cell " + to_string(cell)\n\t\t\t\t\t\t\t+ " has non-zero offset: " + to_string(n.second[0])\n\t\t\t\t\t\t\t+ "," + to_string(n.second[1])\n\t\t\t\t\t\t\t+ "," + to_string(n.second[2])\n\t\t\t\t\t\t);\n\t\t\t\t\t}\n\t\t\t\t\t#endif\n\t\t\t\t\tids_to.insert(n);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tstd::set<std::pair<uint64_t, std::array<int, 3>>> only_neighbors_of, only_neighbors_to, neighbors_both;\n\n\t\t\tfor (const auto& n: ids_to) {\n\t\t\t\tonly_neighbors_to.insert(n);\n\t\t\t}\n\t\t\tfor (const auto& n: ids_of) {\n\t\t\t\t// items in _to always have offset 0, 0, 0\n\t\t\t\tauto temp = n;\n\t\t\t\ttemp.second = {0, 0, 0};\n\n\t\t\t\tonly_neighbors_to.erase(temp);\n\n\t\t\t\tif (ids_to.count(temp) > 0) {\n\t\t\t\t\tneighbors_both.insert(n);\n\t\t\t\t} else {\n\t\t\t\t\tonly_neighbors_of.insert(n);\n\t\t\t\t}\n\t\t\t}\n\n', '\tvoid update_cell_pointers(\n\t\tstd::vector<Cells_Item>& cells,\n\t\tstd::vector<Neighbors_Item>& neighbors,\n\t\tIterator_Storage<Cells_Item>& inner_cells,\n\t\tIterator_Storage<Cells_Item>& outer_cells,\n\t\tIterator_Storage<Cells_Item>& local_cells,\n\t\tIterator_Storage<Cells_Item>& remote_cells,\n\t\tIterator_Storage<Cells_Item>& all_cells,\n\t\tconst int neighborhood_id\n\t) {\n\t\tusing std::to_string;\n\n\t\tcells.clear();\n\t\tneighbors.clear();\n\n\t\tcells.reserve(this->cell_data.size());\n\t\t// at least this much should be needed\n\t\tneighbors.reserve(2 * this->cell_data.size());\n\n\t\tsize_t nr_inner = 0, nr_outer = 0, nr_remote = 0;\n\n\t\tstd::vector<uint64_t> ordered_cells;\n\t\tordered_cells.reserve(this->cell_data.size());\n\n\t\tconst std::unordered_set<uint64_t>* on_proc_bdy = nullptr;\n\t\tif (neighborhood_id == default_neighborhood_id) {\n\t\t\ton_proc_bdy = &this->local_cells_on_process_boundary;\n\t\t} else if (this->user_hood_of.count(neighborhood_id) > 0) {\n\t\t\ton_proc_bdy = &this->user_local_cells_on_process_boundary.at(neighborhood_id);\n\t\t} else {\n\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t}\n\n\t\t// local cells without remote neighbors\n\t\tfor (const auto& item: this->cell_data) {\n\t\t\tif (on_proc_bdy->count(item.first) > 0) {\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\tordered_cells.push_back(item.first);\n\t\t\tnr_inner++;\n\t\t\tif (this->cell_data.count(item.first) == 0) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + "): " + to_string(item.first)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\t\t// local cells with remote neighbor(s)\n\t\tfor (const auto& item: this->cell_data) {\n\t\t\tif (on_proc_bdy->count(item.first) == 0) {\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\tordered_cells.push_back(item.first);\n\t\t\tnr_outer++;\n\t\t\tif (this->cell_data.count(item.first) == 0) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + "): " + to_string(item.first)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\t\t// remote cells with local neighbor(s)\n\t\tfor (const auto& cell: this->remote_cells_on_process_boundary) {\n\t\t\tordered_cells.push_back(cell);\n\t\t\tnr_remote++;\n\t\t\tif (this->remote_neighbors.count(cell) == 0) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\t\t}\n\n\t\t/*\n\t\tCannot store iterators to neighbors_rw vector while\n\t\tadding items, fill out iterators from this after\n\t\tcell loop.\n\n\t\t[0] == number of previous cells\' neighbors\n\t\t[1] == number of only neighbors_of items\n\t\t[2] == number of both neighbors_of and _to items\n\t\t[3] == number of only neighbors_to items\n\t\t*/\n\t\tstd::vector<std::array<size_t, 4>> nr_neighbors(ordered_cells.size());\n\n\t\tfor (size_t i = 0; i < ordered_cells.size(); i++) {\n\t\t\tnr_neighbors[i][0] = neighbors.size();\n\n\t\t\tconst auto cell = ordered_cells[i];\n\t\t\tif (cell == error_cell) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\n\t\t\tCells_Item new_cells_item{};\n\t\t\tnew_cells_item.id = cell;\n\t\t\tnew_cells_item.data = this->operator[](cell);\n\t\t\t// call user-defined update function(s)\n\t\t\tnew_cells_item.update_caller(*this, Additional_Cell_Items()...);\n\t\t\tcells.push_back(std::move(new_cells_item));\n\n\t\t\t/*\n\t\t\tPrepare data for creating cell\'s neighbor iterators\n\t\t\t*/\n\t\t\tconst auto\n\t\t\t\t*neighbors_of = this->get_neighbors_of(cell, neighborhood_id),\n\t\t\t\t*neighbors_to = this->get_neighbors_to(cell, neighborhood_id);\n\t\t\tif (neighbors_of == nullptr) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t+ "): No neighbors of list for cell "\n\t\t\t\t\t+ to_string(cell)\n\t\t\t\t);\n\t\t\t}\n\t\t\tif (neighbors_to == nullptr) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t+ "): No neighbors to list for cell "\n\t\t\t\t\t+ to_string(cell)\n\t\t\t\t);\n\t\t\t}\n\t\t\t#ifdef DEBUG\n\t\t\tfor (const auto& neighbor: *neighbors_of) {\n\t\t\t\tif (neighbor.first == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tif (\n\t\t\t\t\tneighbor.second[0] == 0\n\t\t\t\t\tand neighbor.second[1] == 0\n\t\t\t\t\tand neighbor.second[2] == 0\n\t\t\t\t) {\n\t\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t\t+ "): Invalid offset for neighbor " + to_string(neighbor.first)\n\t\t\t\t\t\t+ " of cell " + to_string(cell)\n\t\t\t\t\t);\n\t\t\t\t}\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tstd::set<std::pair<uint64_t, std::array<int, 3>>> ids_of, ids_to;\n\t\t\tfor (const auto& n: *neighbors_of) {\n\t\t\t\tif (n.first != error_cell) {\n\t\t\t\t\tids_of.insert(n);\n\t\t\t\t}\n\t\t\t}\n\t\t\tfor (const auto& n: *neighbors_to) {\n\t\t\t\tif (n.first != error_cell) {\n\t\t\t\t\t#ifdef DEBUG\n\t\t\t\t\tif (\n\t\t\t\t\t\tn.second[0] != 0\n\t\t\t\t\t\tand n.second[1] != 0\n\t\t\t\t\t\tand n.second[2] != 0\n\t\t\t\t\t) {\n\t\t\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t\t\t+ "): Neighbor_to " + to_string(n.first)\n\t\t\t\t\t\t\t+ " of cell " + to_string(cell)\n\t\t\t\t\t\t\t+ " has non-zero offset: " + to_string(n.second[0])\n\t\t\t\t\t\t\t+ "," + to_string(n.second[1])\n\t\t\t\t\t\t\t+ "," + to_string(n.second[2])\n\t\t\t\t\t\t);\n\t\t\t\t\t}\n\t\t\t\t\t#endif\n\t\t\t\t\tids_to.insert(n);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tstd::set<std::pair<uint64_t, std::array<int, 3>>> only_neighbors_of, only_neighbors_to, neighbors_both;\n\n\t\t\tfor (const auto& n: ids_to) {\n\t\t\t\tonly_neighbors_to.insert(n);\n\t\t\t}\n\t\t\tfor (const auto& n: ids_of) {\n\t\t\t\t// items in _to always have offset 0, 0, 0\n\t\t\t\tauto temp = n;\n\t\t\t\ttemp.second = {0, 0, 0};\n\n\t\t\t\tonly_neighbors_to.erase(temp);\n\n\t\t\t\tif (ids_to.count(temp) > 0) {\n\t\t\t\t\tneighbors_both.insert(n);\n\t\t\t\t} else {\n\t\t\t\t\tonly_neighbors_of.insert(n);\n\t\t\t\t}\n\t\t\t}\n\n'))
same('r-ptr-item', ('\tvoid update_cell_pointers(\n\t\tstd::vector<Cells_Item>& cells,\n\t\tstd::vector<Neighbors_Item>& neighbors,\n\t\tIterator_Storage<Cells_Item>& inner_cells,\n\t\tIterator_Storage<Cells_Item>& outer_cells,\n\t\tIterator_Storage<Cells_Item>& local_cells,\n\t\tIterator_Storage<Cells_Item>& remote_cells,\n\t\tIterator_Storage<Cells_Item>& all_cells,\n\t\tconst int neighborhood_id\n\t) {\n\t\tusing std::to_string;\n\n\t\tcells.clear();\n\t\tneighbors.clear();\n\n\t\tcells.reserve(this->cell_data.size());\n\t\t// at least this much should be needed\n\t\tneighbors.reserve(2 * this->cell_data.size());\n\n\t\tsize_t nr_inner = 0, nr_outer = 0, nr_remote = 0;\n\n\t\tstd::vector<uint64_t> ordered_cells;\n\t\tordered_cells.reserve(this->cell_data.size());\n\n\t\tconst auto& on_proc_bdy = [&](){\n\t\t\tif (neighborhood_id == default_neighborhood_id) {\n\t\t\t\treturn this->local_cells_on_process_boundary;\n\t\t\t}\n\t\t\tif (this->user_hood_of.count(neighborhood_id) > 0) {\n\t\t\t\treturn this->user_local_cells_on_process_boundary.at(neighborhood_id);\n\t\t\t}\n\t\t\tthrow std::runtime_error(\n\t\t\t\t__FILE__ "(" + to_string(__LINE__) + ") " + to_string(neighborhood_id)\n\t\t\t);\n\t\t}();\n\n\t\t// local cells without remote neighbors\n\t\tfor (const auto& item: this->cell_data) {\n\t\t\tif (on_proc_bdy.count(item.first) > 0) {\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\tordered_cells.push_back(item.first);\n\t\t\tnr_inner++;\n\t\t\tif (this->cell_data.count(item.first) == 0) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + "): " + to_string(item.first)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\t\t// local cells with remote neighbor(s)\n\t\tfor (const auto& item: this->cell_data) {\n\t\t\tif (on_proc_bdy.count(item.first) == 0) {\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\tordered_cells.push_back(item.first);\n\t\t\tnr_outer++;\n\t\t\tif (this->cell_data.count(item.first) == 0) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + "): " + to_string(item.first)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\t\t// remote cells with local neighbor(s)\n\t\tfor (const auto& cell: this->remote_cells_on_process_boundary) {\n\t\t\tordered_cells.push_back(cell);\n\t\t\tnr_remote++;\n\t\t\tif (this->remote_neighbors.count(cell) == 0) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\t\t}\n\n\t\t/*\n\t\tCannot store iterators to neighbors_rw vector while\n\t\tadding items, fill out iterators from this after\n\t\tcell loop.\n\n\t\t[0] == number of previous cells\' neighbors\n\t\t[1] == number of only neighbors_of items\n\t\t[2] == number of both neighbors_of and _to items\n\t\t[3] == number of only neighbors_to items\n\t\t*/\n\t\tstd::vector<std::array<size_t, 4>> nr_neighbors(ordered_cells.size());\n\n\t\tfor (size_t i = 0; i < ordered_cells.size(); i++) {\n\t\t\tnr_neighbors[i][0] = neighbors.size();\n\n\t\t\tconst auto cell = ordered_cells[i];\n\t\t\tif (cell == error_cell) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\n\t\t\tCells_Item new_cells_item{};\n\t\t\tnew_cells_item.id = cell;\n\t\t\tnew_cells_item.data = this->operator[](cell);\n\t\t\t// call user-defined update function(s)\n\t\t\tnew_cells_item.update_caller(*this, Additional_Cell_Items()...);\n\t\t\tcells.push_back(std::move(new_cells_item));\n\n\t\t\t/*\n\t\t\tPrepare data for creating cell\'s neighbor iterators\n\t\t\t*/\n\t\t\tconst auto\n\t\t\t\t*neighbors_of = this->get_neighbors_of(cell, neighborhood_id),\n\t\t\t\t*neighbors_to = this->get_neighbors_to(cell, neighborhood_id);\n\t\t\tif (neighbors_of == nullptr) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t+ "): No neighbors of list for cell "\n\t\t\t\t\t+ to_string(cell)\n\t\t\t\t);\n\t\t\t}\n\t\t\tif (neighbors_to == nullptr) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t+ "): No neighbors to list for cell "\n\t\t\t\t\t+ to_string(cell)\n\t\t\t\t);\n\t\t\t}\n\t\t\t#ifdef DEBUG\n\t\t\tfor (const auto& neighbor: *neighbors_of) {\n\t\t\t\tif (neighbor.first == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tif (\n\t\t\t\t\tneighbor.second[0] == 0\n\t\t\t\t\tand neighbor.second[1] == 0\n\t\t\t\t\tand neighbor.second[2] == 0\n\t\t\t\t) {\n\t\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t\t+ "): Invalid offset for neighbor " + to_string(neighbor.first)\n\t\t\t\t\t\t+ " of cell " + to_string(cell)\n\t\t\t\t\t);\n\t\t\t\t}\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tstd::set<std::pair<uint64_t, std::array<int, 3>>> ids_of, ids_to;\n\t\t\tfor (const auto& n: *neighbors_of) {\n\t\t\t\tif (n.first != error_cell) {\n\t\t\t\t\tids_of.insert(n);\n\t\t\t\t}\n\t\t\t}\n\t\t\tfor (const auto& n: *neighbors_to) {\n\t\t\t\tif (n.first != error_cell) {\n\t\t\t\t\t#ifdef DEBUG\n\t\t\t\t\tif (\n\t\t\t\t\t\tn.second[0] != 0\n\t\t\t\t\t\tand n.second[1] != 0\n\t\t\t\t\t\tand n.second[2] != 0\n\t\t\t\t\t) {\n\t\t\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t\t\t+ "): Neighbor_to " + to_string(n.first)\n\t\t\t\t\t\t\t+ " of cell " + to_string(cell)\n\t\t\t\t\t\t\t+ " has non-zero offset: " + to_string(n.second[0])\n\t\t\t\t\t\t\t+ "," + to_string(n.second[1])\n\t\t\t\t\t\t\t+ "," + to_string(n.second[2])\n\t\t\t\t\t\t);\n\t\t\t\t\t}\n\t\t\t\t\t#endif\n\t\t\t\t\tids_to.insert(n);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tstd::set<std::pair<uint64_t, std::array<int, 3>>> only_neighbors_of, only_neighbors_to, neighbors_both;\n\n\t\t\tfor (const auto& n: ids_to) {\n\t\t\t\tonly_neighbors_to.insert(n);\n\t\t\t}\n\t\t\tfor (const auto& n: ids_of) {\n\t\t\t\t// items in _to always have offset 0, 0, 0\n\t\t\t\tauto temp = n;\n\t\t\t\ttemp.second = {0, 0, 0};\n\n\t\t\t\tonly_neighbors_to.erase(temp);\n\n\t\t\t\tif (ids_to.count(temp) > 0) {\n\t\t\t\t\tneighbors_both.insert(n);\n\t\t\t\t} else {\n\t\t\t\t\tonly_neighbors_of.insert(n);\n\t\t\t\t}\n\t\t\t}\n\n', '\tvoid update_cell_pointers(\n\t\tstd::vector<Cells_Item>& cells,\n\t\tstd::vector<Neighbors_Item>& neighbors,\n\t\tIterator_Storage<Cells_Item>& inner_cells,\n\t\tIterator_Storage<Cells_Item>& outer_cells,\n\t\tIterator_Storage<Cells_Item>& local_cells,\n\t\tIterator_Storage<Cells_Item>& remote_cells,\n\t\tIterator_Storage<Cells_Item>& all_cells,\n\t\tconst int neighborhood_id\n\t) {\n\t\tusing std::to_string;\n\n\t\tcells.clear();\n\t\tneighbors.clear();\n\n\t\tcells.reserve(this->cell_data.size());\n\t\t// at least this much should be needed\n\t\tneighbors.reserve(2 * this->cell_data.size());\n\n\t\tsize_t nr_inner = 0, nr_outer = 0, nr_remote = 0;\n\n\t\tstd::vector<uint64_t> ordered_cells;\n\t\tordered_cells.reserve(this->cell_data.size());\n\n\t\tconst auto& on_proc_bdy = [&](){\n\t\t\tif (neighborhood_id == default_neighborhood_id) {\n\t\t\t\treturn this->local_cells_on_process_boundary;\n\t\t\t}\n\t\t\tif (this->user_hood_of.count(neighborhood_id) > 0) {\n\t\t\t\treturn this->user_local_cells_on_process_boundary.at(neighborhood_id);\n\t\t\t}\n\t\t\tthrow std::runtime_error(\n\t\t\t\t__FILE__ "(" + to_string(__LINE__) + ") " + to_string(neighborhood_id)\n\t\t\t);\n\t\t}();\n\n\t\t// local cells without remote neighbors\n\t\tfor (const auto& item: this->cell_data) {\n\t\t\tif (on_proc_bdy.count(item.first) > 0) {\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\tordered_cells.push_back(item.first);\n\t\t\tnr_inner++;\n\t\t\tif (this->cell_data.count(item.first) == 0) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + "): " + to_string(item.first)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\t\t// local cells with remote neighbor(s)\n\t\tfor (const auto& item: this->cell_data) {\n\t\t\tif (on_proc_bdy.count(item.first) == 0) {\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\tordered_cells.push_back(item.first);\n\t\t\tnr_outer++;\n\t\t\tif (this->cell_data.count(item.first) == 0) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + "): " + to_string(item.first)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\t\t// remote cells with local neighbor(s)\n\t\tfor (const auto& cell: this->remote_cells_on_process_boundary) {\n\t\t\tordered_cells.push_back(cell);\n\t\t\tnr_remote++;\n\t\t\tif (this->remote_neighbors.count(cell) == 0) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\t\t}\n\n\t\t/*\n\t\tCannot store iterators to neighbors_rw vector while\n\t\tadding items, fill out iterators from this after\n\t\tcell loop.\n\n\t\t[0] == number of previous cells\' neighbors\n\t\t[1] == number of only neighbors_of items\n\t\t[2] == number of both neighbors_of and _to items\n\t\t[3] == number of only neighbors_to items\n\t\t*/\n\t\tstd::vector<std::array<size_t, 4>> nr_neighbors(ordered_cells.size());\n\n\t\tfor (size_t i = 0; i < ordered_cells.size(); i++) {\n\t\t\tnr_neighbors[i][0] = neighbors.size();\n\n\t\t\tconst auto cell = ordered_cells[i];\n\t\t\tif (cell == error_cell) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\n\t\t\tcells.emplace_back();\n\t\t\tcells.back().id = cell;\n\t\t\tcells.back().data = (*this)[cell];\n\t\t\t// call user-defined update function(s)\n\t\t\tcells.back().update_caller(*this, Additional_Cell_Items()...);\n\n\t\t\t/*\n\t\t\tPrepare data for creating cell\'s neighbor iterators\n\t\t\t*/\n\t\t\tconst auto\n\t\t\t\t*neighbors_of = this->get_neighbors_of(cell, neighborhood_id),\n\t\t\t\t*neighbors_to = this->get_neighbors_to(cell, neighborhood_id);\n\t\t\tif (neighbors_of == nullptr) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t+ "): No neighbors of list for cell "\n\t\t\t\t\t+ to_string(cell)\n\t\t\t\t);\n\t\t\t}\n\t\t\tif (neighbors_to == nullptr) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t+ "): No neighbors to list for cell "\n\t\t\t\t\t+ to_string(cell)\n\t\t\t\t);\n\t\t\t}\n\t\t\t#ifdef DEBUG\n\t\t\tfor (const auto& neighbor: *neighbors_of) {\n\t\t\t\tif (neighbor.first == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tif (\n\t\t\t\t\tneighbor.second[0] == 0\n\t\t\t\t\tand neighbor.second[1] == 0\n\t\t\t\t\tand neighbor.second[2] == 0\n\t\t\t\t) {\n\t\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t\t+ "): Invalid offset for neighbor " + to_string(neighbor.first)\n\t\t\t\t\t\t+ " of cell " + to_string(cell)\n\t\t\t\t\t);\n\t\t\t\t}\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tstd::set<std::pair<uint64_t, std::array<int, 3>>> ids_of, ids_to;\n\t\t\tfor (const auto& n: *neighbors_of) {\n\t\t\t\tif (n.first != error_cell) {\n\t\t\t\t\tids_of.insert(n);\n\t\t\t\t}\n\t\t\t}\n\t\t\tfor (const auto& n: *neighbors_to) {\n\t\t\t\tif (n.first != error_cell) {\n\t\t\t\t\t#ifdef DEBUG\n\t\t\t\t\tif (\n\t\t\t\t\t\tn.second[0] != 0\n\t\t\t\t\t\tand n.second[1] != 0\n\t\t\t\t\t\tand n.second[2] != 0\n\t\t\t\t\t) {\n\t\t\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t\t\t+ "): Neighbor_to " + to_string(n.first)\n\t\t\t\t\t\t\t+ " of cell " + to_string(cell)\n\t\t\t\t\t\t\t+ " has non-zero offset: " + to_string(n.second[0])\n\t\t\t\t\t\t\t+ "," + to_string(n.second[1])\n\t\t\t\t\t\t\t+ "," + to_string(n.second[2])\n\t\t\t\t\t\t);\n\t\t\t\t\t}\n\t\t\t\t\t#endif\n\t\t\t\t\tids_to.insert(n);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tstd::set<std::pair<uint64_t, std::array<int, 3>>> only_neighbors_of, only_neighbors_to, neighbors_both;\n\n\t\t\tfor (const auto& n: ids_to) {\n\t\t\t\tonly_neighbors_to.insert(n);\n\t\t\t}\n\t\t\tfor (const auto& n: ids_of) {\n\t\t\t\t// items in _to always have offset 0, 0, 0\n\t\t\t\tauto temp = n;\n\t\t\t\ttemp.second = {0, 0, 0};\n\n\t\t\t\tonly_neighbors_to.erase(temp);\n\n\t\t\t\tif (ids_to.count(temp) > 0) {\n\t\t\t\t\tneighbors_both.insert(n);\n\t\t\t\t} else {\n\t\t\t\t\tonly_neighbors_of.insert(n);\n\t\t\t\t}\n\t\t\t}\n\n'))
same('r-ptr-sets', ('\tvoid update_cell_pointers(\n\t\tstd::vector<Cells_Item>& cells,\n\t\tstd::vector<Neighbors_Item>& neighbors,\n\t\tIterator_Storage<Cells_Item>& inner_cells,\n\t\tIterator_Storage<Cells_Item>& outer_cells,\n\t\tIterator_Storage<Cells_Item>& local_cells,\n\t\tIterator_Storage<Cells_Item>& remote_cells,\n\t\tIterator_Storage<Cells_Item>& all_cells,\n\t\tconst int neighborhood_id\n\t) {\n\t\tusing std::to_string;\n\n\t\tcells.clear();\n\t\tneighbors.clear();\n\n\t\tcells.reserve(this->cell_data.size());\n\t\t// at least this much should be needed\n\t\tneighbors.reserve(2 * this->cell_data.size());\n\n\t\tsize_t nr_inner = 0, nr_outer = 0, nr_remote = 0;\n\n\t\tstd::vector<uint64_t> ordered_cells;\n\t\tordered_cells.reserve(this->cell_data.size());\n\n\t\tconst auto& on_proc_bdy = [&](){\n\t\t\tif (neighborhood_id == default_neighborhood_id) {\n\t\t\t\treturn this->local_cells_on_process_boundary;\n\t\t\t}\n\t\t\tif (this->user_hood_of.count(neighborhood_id) > 0) {\n\t\t\t\treturn this->user_local_cells_on_process_boundary.at(neighborhood_id);\n\t\t\t}\n\t\t\tthrow std::runtime_error(\n\t\t\t\t__FILE__ "(" + to_string(__LINE__) + ") " + to_string(neighborhood_id)\n\t\t\t);\n\t\t}();\n\n\t\t// local cells without remote neighbors\n\t\tfor (const auto& item: this->cell_data) {\n\t\t\tif (on_proc_bdy.count(item.first) > 0) {\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\tordered_cells.push_back(item.first);\n\t\t\tnr_inner++;\n\t\t\tif (this->cell_data.count(item.first) == 0) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + "): " + to_string(item.first)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\t\t// local cells with remote neighbor(s)\n\t\tfor (const auto& item: this->cell_data) {\n\t\t\tif (on_proc_bdy.count(item.first) == 0) {\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\tordered_cells.push_back(item.first);\n\t\t\tnr_outer++;\n\t\t\tif (this->cell_data.count(item.first) == 0) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + "): " + to_string(item.first)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\t\t// remote cells with local neighbor(s)\n\t\tfor (const auto& cell: this->remote_cells_on_process_boundary) {\n\t\t\tordered_cells.push_back(cell);\n\t\t\tnr_remote++;\n\t\t\tif (this->remote_neighbors.count(cell) == 0) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\t\t}\n\n\t\t/*\n\t\tCannot store iterators to neighbors_rw vector while\n\t\tadding items, fill out iterators from this after\n\t\tcell loop.\n\n\t\t[0] == number of previous cells\' neighbors\n\t\t[1] == number of only neighbors_of items\n\t\t[2] == number of both neighbors_of and _to items\n\t\t[3] == number of only neighbors_to items\n\t\t*/\n\t\tstd::vector<std::array<size_t, 4>> nr_neighbors(ordered_cells.size());\n\n\t\tfor (size_t i = 0; i < ordered_cells.size(); i++) {\n\t\t\tnr_neighbors[i][0] = neighbors.size();\n\n\t\t\tconst auto cell = ordered_cells[i];\n\t\t\tif (cell == error_cell) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\n\t\t\tCells_Item new_cells_item{};\n\t\t\tnew_cells_item.id = cell;\n\t\t\tnew_cells_item.data = this->operator[](cell);\n\t\t\t// call user-defined update function(s)\n\t\t\tnew_cells_item.update_caller(*this, Additional_Cell_Items()...);\n\t\t\tcells.push_back(std::move(new_cells_item));\n\n\t\t\t/*\n\t\t\tPrepare data for creating cell\'s neighbor iterators\n\t\t\t*/\n\t\t\tconst auto\n\t\t\t\t*neighbors_of = this->get_neighbors_of(cell, neighborhood_id),\n\t\t\t\t*neighbors_to = this->get_neighbors_to(cell, neighborhood_id);\n\t\t\tif (neighbors_of == nullptr) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t+ "): No neighbors of list for cell "\n\t\t\t\t\t+ to_string(cell)\n\t\t\t\t);\n\t\t\t}\n\t\t\tif (neighbors_to == nullptr) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t+ "): No neighbors to list for cell "\n\t\t\t\t\t+ to_string(cell)\n\t\t\t\t);\n\t\t\t}\n\t\t\t#ifdef DEBUG\n\t\t\tfor (const auto& neighbor: *neighbors_of) {\n\t\t\t\tif (neighbor.first == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tif (\n\t\t\t\t\tneighbor.second[0] == 0\n\t\t\t\t\tand neighbor.second[1] == 0\n\t\t\t\t\tand neighbor.second[2] == 0\n\t\t\t\t) {\n\t\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t\t+ "): Invalid offset for neighbor " + to_string(neighbor.first)\n\t\t\t\t\t\t+ " of cell " + to_string(cell)\n\t\t\t\t\t);\n\t\t\t\t}\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tstd::set<std::pair<uint64_t, std::array<int, 3>>> ids_of, ids_to;\n\t\t\tfor (const auto& n: *neighbors_of) {\n\t\t\t\tif (n.first != error_cell) {\n\t\t\t\t\tids_of.insert(n);\n\t\t\t\t}\n\t\t\t}\n\t\t\tfor (const auto& n: *neighbors_to) {\n\t\t\t\tif (n.first != error_cell) {\n\t\t\t\t\t#ifdef DEBUG\n\t\t\t\t\tif (\n\t\t\t\t\t\tn.second[0] != 0\n\t\t\t\t\t\tand n.second[1] != 0\n\t\t\t\t\t\tand n.second[2] != 0\n\t\t\t\t\t) {\n\t\t\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t\t\t+ "): Neighbor_to " + to_string(n.first)\n\t\t\t\t\t\t\t+ " of cell " + to_string(cell)\n\t\t\t\t\t\t\t+ " has non-zero offset: " + to_string(n.second[0])\n\t\t\t\t\t\t\t+ "," + to_string(n.second[1])\n\t\t\t\t\t\t\t+ "," + to_string(n.second[2])\n\t\t\t\t\t\t);\n\t\t\t\t\t}\n\t\t\t\t\t#endif\n\t\t\t\t\tids_to.insert(n);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tstd::set<std::pair<uint64_t, std::array<int, 3>>> only_neighbors_of, only_neighbors_to, neighbors_both;\n\n\t\t\tfor (const auto& n: ids_to) {\n\t\t\t\tonly_neighbors_to.insert(n);\n\t\t\t}\n\t\t\tfor (const auto& n: ids_of) {\n\t\t\t\t// items in _to always have offset 0, 0, 0\n\t\t\t\tauto temp = n;\n\t\t\t\ttemp.second = {0, 0, 0};\n\n\t\t\t\tonly_neighbors_to.erase(temp);\n\n\t\t\t\tif (ids_to.count(temp) > 0) {\n\t\t\t\t\tneighbors_both.insert(n);\n\t\t\t\t} else {\n\t\t\t\t\tonly_neighbors_of.insert(n);\n\t\t\t\t}\n\t\t\t}\n\n', '\tvoid update_cell_pointers(\n\t\tstd::vector<Cells_Item>& cells,\n\t\tstd::vector<Neighbors_Item>& neighbors,\n\t\tIterator_Storage<Cells_Item>& inner_cells,\n\t\tIterator_Storage<Cells_Item>& outer_cells,\n\t\tIterator_Storage<Cells_Item>& local_cells,\n\t\tIterator_Storage<Cells_Item>& remote_cells,\n\t\tIterator_Storage<Cells_Item>& all_cells,\n\t\tconst int neighborhood_id\n\t) {\n\t\tusing std::to_string;\n\n\t\tcells.clear();\n\t\tneighbors.clear();\n\n\t\tcells.reserve(this->cell_data.size());\n\t\t// at least this much should be needed\n\t\tneighbors.reserve(2 * this->cell_data.size());\n\n\t\tsize_t nr_inner = 0, nr_outer = 0, nr_remote = 0;\n\n\t\tstd::vector<uint64_t> ordered_cells;\n\t\tordered_cells.reserve(this->cell_data.size());\n\n\t\tconst auto& on_proc_bdy = [&](){\n\t\t\tif (neighborhood_id == default_neighborhood_id) {\n\t\t\t\treturn this->local_cells_on_process_boundary;\n\t\t\t}\n\t\t\tif (this->user_hood_of.count(neighborhood_id) > 0) {\n\t\t\t\treturn this->user_local_cells_on_process_boundary.at(neighborhood_id);\n\t\t\t}\n\t\t\tthrow std::runtime_error(\n\t\t\t\t__FILE__ "(" + to_string(__LINE__) + ") " + to_string(neighborhood_id)\n\t\t\t);\n\t\t}();\n\n\t\t// local cells without remote neighbors\n\t\tfor (const auto& item: this->cell_data) {\n\t\t\tif (on_proc_bdy.count(item.first) > 0) {\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\tordered_cells.push_back(item.first);\n\t\t\tnr_inner++;\n\t\t\tif (this->cell_data.count(item.first) == 0) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + "): " + to_string(item.first)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\t\t// local cells with remote neighbor(s)\n\t\tfor (const auto& item: this->cell_data) {\n\t\t\tif (on_proc_bdy.count(item.first) == 0) {\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\tordered_cells.push_back(item.first);\n\t\t\tnr_outer++;\n\t\t\tif (this->cell_data.count(item.first) == 0) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + "): " + to_string(item.first)\n\t\t\t\t);\n\t\t\t}\n\t\t}\n\t\t// remote cells with local neighbor(s)\n\t\tfor (const auto& cell: this->remote_cells_on_process_boundary) {\n\t\t\tordered_cells.push_back(cell);\n\t\t\tnr_remote++;\n\t\t\tif (this->remote_neighbors.count(cell) == 0) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\t\t}\n\n\t\t/*\n\t\tCannot store iterators to neighbors_rw vector while\n\t\tadding items, fill out iterators from this after\n\t\tcell loop.\n\n\t\t[0] == number of previous cells\' neighbors\n\t\t[1] == number of only neighbors_of items\n\t\t[2] == number of both neighbors_of and _to items\n\t\t[3] == number of only neighbors_to items\n\t\t*/\n\t\tstd::vector<std::array<size_t, 4>> nr_neighbors(ordered_cells.size());\n\n\t\tfor (size_t i = 0; i < ordered_cells.size(); i++) {\n\t\t\tnr_neighbors[i][0] = neighbors.size();\n\n\t\t\tconst auto cell = ordered_cells[i];\n\t\t\tif (cell == error_cell) {\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n\n\t\t\tCells_Item new_cells_item{};\n\t\t\tnew_cells_item.id = cell;\n\t\t\tnew_cells_item.data = this->operator[](cell);\n\t\t\t// call user-defined update function(s)\n\t\t\tnew_cells_item.update_caller(*this, Additional_Cell_Items()...);\n\t\t\tcells.push_back(std::move(new_cells_item));\n\n\t\t\t/*\n\t\t\tPrepare data for creating cell\'s neighbor iterators\n\t\t\t*/\n\t\t\tconst auto\n\t\t\t\t*neighbors_of = this->get_neighbors_of(cell, neighborhood_id),\n\t\t\t\t*neighbors_to = this->get_neighbors_to(cell, neighborhood_id);\n\t\t\tif (neighbors_of == nullptr) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t+ "): No neighbors of list for cell "\n\t\t\t\t\t+ to_string(cell)\n\t\t\t\t);\n\t\t\t}\n\t\t\tif (neighbors_to == nullptr) {\n\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t+ "): No neighbors to list for cell "\n\t\t\t\t\t+ to_string(cell)\n\t\t\t\t);\n\t\t\t}\n\t\t\t#ifdef DEBUG\n\t\t\tfor (const auto& neighbor: *neighbors_of) {\n\t\t\t\tif (neighbor.first == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tif (\n\t\t\t\t\tneighbor.second[0] == 0\n\t\t\t\t\tand neighbor.second[1] == 0\n\t\t\t\t\tand neighbor.second[2] == 0\n\t\t\t\t) {\n\t\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t\t+ "): Invalid offset for neighbor " + to_string(neighbor.first)\n\t\t\t\t\t\t+ " of cell " + to_string(cell)\n\t\t\t\t\t);\n\t\t\t\t}\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tstd::set<std::pair<uint64_t, std::array<int, 3>>> ids_of, ids_to;\n\t\t\tfor (const auto& n: *neighbors_of) {\n\t\t\t\tif (n.first != error_cell) {\n\t\t\t\t\tids_of.insert(n);\n\t\t\t\t}\n\t\t\t}\n\t\t\tfor (const auto& n: *neighbors_to) {\n\t\t\t\tif (n.first != error_cell) {\n\t\t\t\t\t#ifdef DEBUG\n\t\t\t\t\tif (\n\t\t\t\t\t\tn.second[0] != 0\n\t\t\t\t\t\tand n.second[1] != 0\n\t\t\t\t\t\tand n.second[2] != 0\n\t\t\t\t\t) {\n\t\t\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t\t\t__FILE__ "(" + to_string(__LINE__)\n\t\t\t\t\t\t\t+ "): Neighbor_to " + to_string(n.first)\n\t\t\t\t\t\t\t+ " of cell " + to_string(cell)\n\t\t\t\t\t\t\t+ " has non-zero offset: " + to_string(n.second[0])\n\t\t\t\t\t\t\t+ "," + to_string(n.second[1])\n\t\t\t\t\t\t\t+ "," + to_string(n.second[2])\n\t\t\t\t\t\t);\n\t\t\t\t\t}\n\t\t\t\t\t#endif\n\t\t\t\t\tids_to.insert(n);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tstd::set<std::pair<uint64_t, std::array<int, 3>>>\n\t\t\t\tonly_neighbors_of, neighbors_both,\n\t\t\t\tonly_neighbors_to = ids_to;\n\t\t\tfor (const auto& n: ids_of) {\n\t\t\t\t// items in _to always have offset 0, 0, 0\n\t\t\t\tconst std::pair<uint64_t, std::array<int, 3>> temp{n.first, {{0, 0, 0}}};\n\t\t\t\tif (ids_to.count(temp) == 0) {\n\t\t\t\t\tonly_neighbors_of.insert(n);\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tneighbors_both.insert(n);\n\t\t\t\tonly_neighbors_to.erase(temp);\n\t\t\t}\n\n'))
same('t-face-table', ('\t\t\t// add siblings of smaller face neighbor\n\t\t\tswitch (i) {\n\t\t\tcase 0:\n\t\t\tcase 1:\n\t\t\t\tif (neighs_neighs[3] != error_cell) {\n\t\t\t\t\tret_val.emplace_back(neighs_neighs[3], dirs[i]);\n\t\t\t\t}\n\t\t\t\tif (neighs_neighs[5] != error_cell) {\n\t\t\t\t\tret_val.emplace_back(neighs_neighs[5], dirs[i]);\n\t\t\t\t\t#ifdef DEBUG\n\t\t\t\t\tif (this->neighbors_.count(neighs_neighs[5]) == 0) {\n\t\t\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + ") "\n\t\t\t\t\t\t\t+ "No neighbors_ for cell "\n\t\t\t\t\t\t\t+ to_string(neighs_neighs[5])\n\t\t\t\t\t\t);\n\t\t\t\t\t}\n\t\t\t\t\t#endif\n\t\t\t\t\tif (this->neighbors_.at(neighs_neighs[5])[3] != error_cell) {\n\t\t\t\t\t\tret_val.emplace_back(\n\t\t\t\t\t\t\tthis->neighbors_.at(neighs_neighs[5])[3],\n\t\t\t\t\t\t\tdirs[i]\n\t\t\t\t\t\t);\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tcase 2:\n\t\t\tcase 3:\n\t\t\t\tif (neighs_neighs[1] != error_cell) {\n\t\t\t\t\tret_val.emplace_back(neighs_neighs[1], dirs[i]);\n\t\t\t\t}\n\t\t\t\tif (neighs_neighs[5] != error_cell) {\n\t\t\t\t\tret_val.emplace_back(neighs_neighs[5], dirs[i]);\n\t\t\t\t\t#ifdef DEBUG\n\t\t\t\t\tif (this->neighbors_.count(neighs_neighs[5]) == 0) {\n\t\t\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + ") "\n\t\t\t\t\t\t\t+ "No neighbors_ for cell "\n\t\t\t\t\t\t\t+ to_string(neighs_neighs[5])\n\t\t\t\t\t\t);\n\t\t\t\t\t}\n\t\t\t\t\t#endif\n\t\t\t\t\tif (this->neighbors_.at(neighs_neighs[5])[1] != error_cell) {\n\t\t\t\t\t\tret_val.emplace_back(\n\t\t\t\t\t\t\tthis->neighbors_.at(neighs_neighs[5])[1],\n\t\t\t\t\t\t\tdirs[i]\n\t\t\t\t\t\t);\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tcase 4:\n\t\t\tcase 5:\n\t\t\t\tif (neighs_neighs[1] != error_cell) {\n\t\t\t\t\tret_val.emplace_back(neighs_neighs[1], dirs[i]);\n\t\t\t\t}\n\t\t\t\tif (neighs_neighs[3] != error_cell) {\n\t\t\t\t\tret_val.emplace_back(neighs_neighs[3], dirs[i]);\n\t\t\t\t\t#ifdef DEBUG\n\t\t\t\t\tif (this->neighbors_.count(neighs_neighs[3]) == 0) {\n\t\t\t\t\t\tthrow std::runtime_error(\n\t\t\t\t\t\t\t__FILE__ "(" + to_string(__LINE__) + ") "\n\t\t\t\t\t\t\t+ "No neighbors_ for cell "\n\t\t\t\t\t\t\t+ to_string(neighs_neighs[3])\n\t\t\t\t\t\t);\n\t\t\t\t\t}\n\t\t\t\t\t#endif\n\t\t\t\t\tif (this->neighbors_.at(neighs_neighs[3])[1] != error_cell) {\n\t\t\t\t\t\tret_val.emplace_back(\n\t\t\t\t\t\t\tthis->neighbors_.at(neighs_neighs[3])[1],\n\t\t\t\t\t\t\tdirs[i]\n\t\t\t\t\t\t);\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tbreak;\n\t\t\tdefault:\n\t\t\t\tthrow std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");\n\t\t\t}\n', '\t\t\t// add siblings of smaller face neighbor\n\t\t\tconst size_t first = (i < 2) ? 3 : 1, second = (i < 4) ? 5 : 3;\n\t\t\tif (neighs_neighs[first] != error_cell) {\n\t\t\t\tret_val.emplace_back(neighs_neighs[first], dirs[i]);\n\t\t\t}\n\t\t\tif (neighs_neighs[second] != error_cell) {\n\t\t\t\tret_val.emplace_back(neighs_neighs[second], dirs[i]);\n\t\t\t\tconst uint64_t diagonal = this->neighbors_.at(neighs_neighs[second])[first];\n\t\t\t\tif (diagonal != error_cell) {\n\t\t\t\t\tret_val.emplace_back(diagonal, dirs[i]);\n\t\t\t\t}\n\t\t\t}\n'))
same('t-face-find', ('\t\tif (this->neighbors_.count(cell) == 0) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Internal error." << std::endl;\n\t\t\tabort();\n\t\t}\n\t\tconst auto& neighs_ = this->neighbors_.at(cell);\n\n\t\tconst int ref_lvl', '\t\tconst auto found = this->neighbors_.find(cell);\n\t\tif (found == this->neighbors_.end()) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " Internal error." << std::endl;\n\t\t\tabort();\n\t\t}\n\t\tconst auto& neighs_ = found->second;\n\n\t\tconst int ref_lvl'))
same('t-nbr-minmax', ('\t\t\tnew_neighbors_[i] = this->get_existing_cell(\n\t\t\t\tsearch_indices[i],\n\t\t\t\t[&](){\n\t\t\t\t\tif (ref_lvl == 0) {\n\t\t\t\t\t\treturn 0;\n\t\t\t\t\t} else {\n\t\t\t\t\t\treturn ref_lvl - 1;\n\t\t\t\t\t}\n\t\t\t\t}(),\n\t\t\t\t[&](){\n\t\t\t\t\tconst auto max_ref_lvl = this->mapping.get_maximum_refinement_level();\n\t\t\t\t\tif (ref_lvl == max_ref_lvl) {\n\t\t\t\t\t\treturn max_ref_lvl;\n\t\t\t\t\t} else {\n\t\t\t\t\t\treturn ref_lvl + 1;\n\t\t\t\t\t}\n\t\t\t\t}()\n\t\t\t);\n', '\t\t\tnew_neighbors_[i] = this->get_existing_cell(search_indices[i], std::max(0, ref_lvl - 1), std::min(max_ref_lvl, ref_lvl + 1));\n'))
same('t-nbr-ternary', ('\t\t\tnew_neighbors_[i] = this->get_existing_cell(\n\t\t\t\tsearch_indices[i],\n\t\t\t\t[&](){\n\t\t\t\t\tif (ref_lvl == 0) {\n\t\t\t\t\t\treturn 0;\n\t\t\t\t\t} else {\n\t\t\t\t\t\treturn ref_lvl - 1;\n\t\t\t\t\t}\n\t\t\t\t}(),\n\t\t\t\t[&](){\n\t\t\t\t\tconst auto max_ref_lvl = this->mapping.get_maximum_refinement_level();\n\t\t\t\t\tif (ref_lvl == max_ref_lvl) {\n\t\t\t\t\t\treturn max_ref_lvl;\n\t\t\t\t\t} else {\n\t\t\t\t\t\treturn ref_lvl + 1;\n\t\t\t\t\t}\n\t\t\t\t}()\n\t\t\t);\n', '\t\t\tconst int min_level = ref_lvl > 0 ? ref_lvl - 1 : 0;\n\t\t\tconst int max_level = ref_lvl < max_ref_lvl ? ref_lvl + 1 : max_ref_lvl;\n\t\t\tnew_neighbors_[i] = this->get_existing_cell(search_indices[i], min_level, max_level);\n'))
same('t-nbr-dims', ('\t\t// negative directions\n\t\tfor (auto dir_i: {0, 2, 4}) {\n\t\t\tconst auto dim_i = dir_i / 2;\n\t\t\tif (search_indices[dir_i][dim_i] == 0) {\n\t\t\t\tif (not periodic[dim_i]) {\n\t\t\t\t\tsearch_indices[dir_i][dim_i] = error_index;\n\t\t\t\t} else {\n\t\t\t\t\tsearch_indices[dir_i][dim_i] = grid_length[dim_i] * (uint64_t(1) << max_ref_lvl) - 1;\n\t\t\t\t}\n\t\t\t} else {\n\t\t\t\tsearch_indices[dir_i][dim_i]--;\n\t\t\t}\n\t\t}\n\n\t\t// positive directions\n\t\tfor (auto dir_i: {1, 3, 5}) {\n\t\t\tconst auto dim_i = dir_i / 2;\n\t\t\tconst auto max_index = grid_length[dim_i] * (uint64_t(1) << max_ref_lvl) - 1;\n\t\t\tif (\n\t\t\t\tmax_index < cell_length\n\t\t\t\tor search_indices[dir_i][dim_i] > max_index - cell_length\n\t\t\t) {\n\t\t\t\tif (not periodic[dim_i]) {\n\t\t\t\t\tsearch_indices[dir_i][dim_i] = error_index;\n\t\t\t\t} else {\n\t\t\t\t\tsearch_indices[dir_i][dim_i] = 0;\n\t\t\t\t}\n\t\t\t} else {\n\t\t\t\tsearch_indices[dir_i][dim_i] += cell_length;\n\t\t\t}\n\t\t}\n\n', '\t\tfor (size_t dim = 0; dim < 3; dim++) {\n\t\t\tconst uint64_t end_index = grid_length[dim] * (uint64_t(1) << max_ref_lvl);\n\n\t\t\t// negative direction\n\t\t\tuint64_t& lower = search_indices[2 * dim][dim];\n\t\t\tif (lower > 0) {\n\t\t\t\tlower--;\n\t\t\t} else if (periodic[dim]) {\n\t\t\t\tlower = end_index - 1;\n\t\t\t} else {\n\t\t\t\tlower = error_index;\n\t\t\t}\n\n\t\t\t// positive direction\n\t\t\tuint64_t& upper = search_indices[2 * dim + 1][dim];\n\t\t\tif (upper + cell_length < end_index) {\n\t\t\t\tupper += cell_length;\n\t\t\t} else if (periodic[dim]) {\n\t\t\t\tupper = 0;\n\t\t\t} else {\n\t\t\t\tupper = error_index;\n\t\t\t}\n\t\t}\n\n'))
same('t-nbr-guards', ('\t\tif (\n\t\t\tcell == error_cell\n\t\t\tor this->cell_process.count(cell) == 0\n\t\t\tor cell != this->get_child(cell)\n\t\t) {\n\t\t\treturn;\n\t\t}\n\n\t\tconst auto indices = this->mapping.get_indices(cell);\n\t\tconst auto cell_length', '\t\tif (cell == error_cell) {\n\t\t\treturn;\n\t\t}\n\t\tif (this->cell_process.find(cell) == this->cell_process.end()) {\n\t\t\treturn;\n\t\t}\n\t\t// only leaf cells have neighbors\n\t\tif (this->get_child(cell) != cell) {\n\t\t\treturn;\n\t\t}\n\n\t\tconst auto indices = this->mapping.get_indices(cell);\n\t\tconst auto cell_length'))
same('t-hood-ref', ('\t\tthis->user_hood_to[neighborhood_id].clear();\n\t\tfor (const auto& neigh_item: given_neigh) {\n\t\t\tconst Types<3>::neighborhood_item_t neigh_item_to = {{\n\t\t\t\t-neigh_item[0],\n\t\t\t\t-neigh_item[1],\n\t\t\t\t-neigh_item[2]\n\t\t\t}};\n\t\t\tthis->user_hood_to.at(neighborhood_id).push_back(neigh_item_to);\n\t\t}\n', '\t\tstd::vector<Types<3>::neighborhood_item_t> opposite;\n\t\topposite.reserve(given_neigh.size());\n\t\tfor (const auto& neigh_item: given_neigh) {\n\t\t\topposite.push_back({{-neigh_item[0], -neigh_item[1], -neigh_item[2]}});\n\t\t}\n\t\tthis->user_hood_to[neighborhood_id] = std::move(opposite);\n'))
same('t-send-range', ('\tbool start_user_data_sends(\n\t\tconst std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>& send_item,\n\t\tconst int neighborhood_id\n\t) {\n\t\tint ret_val = -1;\n\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::const_iterator\n\t\t\treceiver = send_item.begin();\n\t\t\treceiver != send_item.end();\n\t\t\treceiver++\n\t\t) {\n\t\t\tconst int receiving_process = receiver->first;\n\t\t\tconst size_t number_of_sends = receiver->second.size();\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (receiving_process == (int) this->rank\n\t\t\t&& number_of_sends > 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Trying to transfer to self"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tif (this->send_single_cells) {\n\n\t\t\t\tfor (std::vector<std::pair<uint64_t, int>>::const_iterator\n\t\t\t\t\titem = receiver->second.begin();\n\t\t\t\t\titem != receiver->second.end();\n\t\t\t\t\titem++\n\t\t\t\t) {\n\t\t\t\t\tconst uint64_t cell = item->first;\n\n\t\t\t\t\tthis->send_requests[receiving_process].push_back(MPI_Request());\n\n\t\t\t\t\tvoid* address = NULL;\n\t\t\t\t\tint count = -1;\n\t\t\t\t\tMPI_Datatype user_datatype = MPI_DATATYPE_NULL;\n\n\t\t\t\t\tstd::tie(\n\t\t\t\t\t\taddress,\n\t\t\t\t\t\tcount,\n\t\t\t\t\t\tuser_datatype\n\t\t\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\t\t\tthis->cell_data.at(cell),\n\t\t\t\t\t\tcell,\n\t\t\t\t\t\t(int) this->rank,\n\t\t\t\t\t\treceiving_process,\n\t\t\t\t\t\tfalse,\n\t\t\t\t\t\tneighborhood_id\n\t\t\t\t\t);\n\n\t\t\t\t\tconst bool is_named_datatype = Is_Named_Datatype()(user_datatype);\n\n\t\t\t\t\tif (!is_named_datatype) {\n\t\t\t\t\t\tret_val = MPI_Type_commit(&user_datatype);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_commit failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for datatype of cell " << cell\n\t\t\t\t\t\t\t\t<< " with returned buffer address " << address\n\t\t\t\t\t\t\t\t<< " and returned count " << count\n\t\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\n\t\t\t\t\tret_val = MPI_Isend(\n\t\t\t\t\t\taddress,\n\t\t\t\t\t\tcount,\n\t\t\t\t\t\tuser_datatype,\n\t\t\t\t\t\treceiving_process,\n\t\t\t\t\t\titem->second,\n\t\t\t\t\t\tthis->comm,\n\t\t\t\t\t\t&(this->send_requests[receiving_process].back())\n\t\t\t\t\t);\n\n\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t<< " MPI_Isend failed on process " << this->rank\n\t\t\t\t\t\t\t<< ", for cell " << cell\n\t\t\t\t\t\t\t<< ", to process " << receiving_process\n\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\tabort();\n\t\t\t\t\t}\n\n\t\t\t\t\tif (!is_named_datatype) {\n\t\t\t\t\t\tret_val = MPI_Type_free(&user_datatype);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_free failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for a derived datatype of cell " << cell\n\t\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\n\t\t\t} else { // if this->send_single_cells\n\n\t\t\t\t// get mpi transfer info from cells\n\t\t\t\tstd::vector<void*> addresses(number_of_sends, NULL);\n\t\t\t\tstd::vector<int> counts(number_of_sends, -1);\n\t\t\t\tstd::vector<MPI_Datatype> datatypes(number_of_sends, MPI_DATATYPE_NULL);\n\n\t\t\t\tfor (size_t i = 0; i < number_of_sends; i++) {\n\t\t\t\t\tconst uint64_t cell = receiver->second[i].first;\n\n\t\t\t\t\tstd::tie(\n\t\t\t\t\t\taddresses[i],\n\t\t\t\t\t\tcounts[i],\n\t\t\t\t\t\tdatatypes[i]\n\t\t\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\t\t\tthis->cell_data.at(cell),\n\t\t\t\t\t\tcell,\n\t\t\t\t\t\t(int) this->rank,\n\t\t\t\t\t\treceiving_process,\n\t\t\t\t\t\tfalse,\n\t\t\t\t\t\tneighborhood_id\n\t\t\t\t\t);\n\t\t\t\t}\n\n\t\t\t\t// get displacements in bytes for outgoing user data\n\t\t\t\tstd::vector<MPI_Aint> displacements(number_of_sends, 0);\n\t\t\t\tfor (size_t i = 0; i < number_of_sends; i++) {\n\t\t\t\t\tdisplacements[i] = (uint8_t*) addresses[i] - (uint8_t*) addresses[0];\n\t\t\t\t}\n\n\t\t\t\tMPI_Datatype send_datatype;\n\n\t\t\t\tret_val = MPI_Type_create_struct(\n\t\t\t\t\t(int) number_of_sends,\n\t\t\t\t\t&counts[0],\n\t\t\t\t\t&displacements[0],\n\t\t\t\t\t&datatypes[0],\n\t\t\t\t\t&send_datatype\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Type_create_struct failed for process " << this->rank\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val = MPI_Type_commit(&send_datatype);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Type_commit failed for process " << this->rank\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tthis->send_requests[receiver->first].push_back(MPI_Request());\n\n\t\t\t\tret_val = MPI_Isend(\n\t\t\t\t\taddresses[0],\n\t\t\t\t\t1,\n\t\t\t\t\tsend_datatype,\n\t\t\t\t\treceiver->first,\n\t\t\t\t\t0,\n\t\t\t\t\tthis->comm,\n\t\t\t\t\t&(this->send_requests[receiver->first].back())\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Isend failed from process " << this->rank\n\t\t\t\t\t\t<< ", target process " << receiver->first\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val = MPI_Type_free(&send_datatype);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t free datatype: " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tfor (auto& type: datatypes) {\n\t\t\t\t\tif (!Is_Named_Datatype()(type)) {\n\t\t\t\t\t\tret_val = MPI_Type_free(&type);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_free failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for a derived datatype of user data: "\n\t\t\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\treturn true;\n\t}\n\n\n', '\tbool start_user_data_sends(\n\t\tconst std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>& send_item,\n\t\tconst int neighborhood_id\n\t) {\n\t\tint ret_val = -1;\n\n\t\tfor (const auto& receiver: send_item) {\n\t\t\tconst int receiving_process = receiver.first;\n\t\t\tconst auto& items = receiver.second;\n\t\t\tconst size_t number_of_sends = items.size();\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (receiving_process == (int) this->rank\n\t\t\t&& number_of_sends > 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Trying to transfer to self"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tif (this->send_single_cells) {\n\n\t\t\t\tfor (const auto& item: items) {\n\t\t\t\t\tconst uint64_t cell = item.first;\n\n\t\t\t\t\tthis->send_requests[receiving_process].push_back(MPI_Request());\n\n\t\t\t\t\tvoid* address = NULL;\n\t\t\t\t\tint count = -1;\n\t\t\t\t\tMPI_Datatype user_datatype = MPI_DATATYPE_NULL;\n\n\t\t\t\t\tstd::tie(\n\t\t\t\t\t\taddress,\n\t\t\t\t\t\tcount,\n\t\t\t\t\t\tuser_datatype\n\t\t\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\t\t\tthis->cell_data.at(cell),\n\t\t\t\t\t\tcell,\n\t\t\t\t\t\t(int) this->rank,\n\t\t\t\t\t\treceiving_process,\n\t\t\t\t\t\tfalse,\n\t\t\t\t\t\tneighborhood_id\n\t\t\t\t\t);\n\n\t\t\t\t\tconst bool is_named_datatype = Is_Named_Datatype()(user_datatype);\n\n\t\t\t\t\tif (!is_named_datatype) {\n\t\t\t\t\t\tret_val = MPI_Type_commit(&user_datatype);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_commit failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for datatype of cell " << cell\n\t\t\t\t\t\t\t\t<< " with returned buffer address " << address\n\t\t\t\t\t\t\t\t<< " and returned count " << count\n\t\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\n\t\t\t\t\tret_val = MPI_Isend(\n\t\t\t\t\t\taddress,\n\t\t\t\t\t\tcount,\n\t\t\t\t\t\tuser_datatype,\n\t\t\t\t\t\treceiving_process,\n\t\t\t\t\t\titem.second,\n\t\t\t\t\t\tthis->comm,\n\t\t\t\t\t\t&(this->send_requests[receiving_process].back())\n\t\t\t\t\t);\n\n\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t<< " MPI_Isend failed on process " << this->rank\n\t\t\t\t\t\t\t<< ", for cell " << cell\n\t\t\t\t\t\t\t<< ", to process " << receiving_process\n\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\tabort();\n\t\t\t\t\t}\n\n\t\t\t\t\tif (!is_named_datatype) {\n\t\t\t\t\t\tret_val = MPI_Type_free(&user_datatype);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_free failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for a derived datatype of cell " << cell\n\t\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\n\t\t\t} else { // if this->send_single_cells\n\n\t\t\t\t// get mpi transfer info from cells\n\t\t\t\tstd::vector<void*> addresses(number_of_sends, NULL);\n\t\t\t\tstd::vector<int> counts(number_of_sends, -1);\n\t\t\t\tstd::vector<MPI_Datatype> datatypes(number_of_sends, MPI_DATATYPE_NULL);\n\n\t\t\t\tfor (size_t i = 0; i < number_of_sends; i++) {\n\t\t\t\t\tconst uint64_t cell = items[i].first;\n\n\t\t\t\t\tstd::tie(\n\t\t\t\t\t\taddresses[i],\n\t\t\t\t\t\tcounts[i],\n\t\t\t\t\t\tdatatypes[i]\n\t\t\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\t\t\tthis->cell_data.at(cell),\n\t\t\t\t\t\tcell,\n\t\t\t\t\t\t(int) this->rank,\n\t\t\t\t\t\treceiving_process,\n\t\t\t\t\t\tfalse,\n\t\t\t\t\t\tneighborhood_id\n\t\t\t\t\t);\n\t\t\t\t}\n\n\t\t\t\t// get displacements in bytes for outgoing user data\n\t\t\t\tstd::vector<MPI_Aint> displacements(number_of_sends, 0);\n\t\t\t\tfor (size_t i = 0; i < number_of_sends; i++) {\n\t\t\t\t\tdisplacements[i] = (uint8_t*) addresses[i] - (uint8_t*) addresses[0];\n\t\t\t\t}\n\n\t\t\t\tMPI_Datatype send_datatype;\n\n\t\t\t\tret_val = MPI_Type_create_struct(\n\t\t\t\t\t(int) number_of_sends,\n\t\t\t\t\t&counts[0],\n\t\t\t\t\t&displacements[0],\n\t\t\t\t\t&datatypes[0],\n\t\t\t\t\t&send_datatype\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Type_create_struct failed for process " << this->rank\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val = MPI_Type_commit(&send_datatype);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Type_commit failed for process " << this->rank\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tthis->send_requests[receiving_process].push_back(MPI_Request());\n\n\t\t\t\tret_val = MPI_Isend(\n\t\t\t\t\taddresses[0],\n\t\t\t\t\t1,\n\t\t\t\t\tsend_datatype,\n\t\t\t\t\treceiving_process,\n\t\t\t\t\t0,\n\t\t\t\t\tthis->comm,\n\t\t\t\t\t&(this->send_requests[receiving_process].back())\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Isend failed from process " << this->rank\n\t\t\t\t\t\t<< ", target process " << receiving_process\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val = MPI_Type_free(&send_datatype);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t free datatype: " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tfor (auto& type: datatypes) {\n\t\t\t\t\tif (!Is_Named_Datatype()(type)) {\n\t\t\t\t\t\tret_val = MPI_Type_free(&type);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_free failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for a derived datatype of user data: "\n\t\t\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\treturn true;\n\t}\n\n\n'))
same('t-send-auto', ('\tbool start_user_data_sends(\n\t\tconst std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>& send_item,\n\t\tconst int neighborhood_id\n\t) {\n\t\tint ret_val = -1;\n\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::const_iterator\n\t\t\treceiver = send_item.begin();\n\t\t\treceiver != send_item.end();\n\t\t\treceiver++\n\t\t) {\n\t\t\tconst int receiving_process = receiver->first;\n\t\t\tconst size_t number_of_sends = receiver->second.size();\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (receiving_process == (int) this->rank\n\t\t\t&& number_of_sends > 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Trying to transfer to self"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tif (this->send_single_cells) {\n\n\t\t\t\tfor (std::vector<std::pair<uint64_t, int>>::const_iterator\n\t\t\t\t\titem = receiver->second.begin();\n\t\t\t\t\titem != receiver->second.end();\n\t\t\t\t\titem++\n\t\t\t\t) {\n\t\t\t\t\tconst uint64_t cell = item->first;\n\n\t\t\t\t\tthis->send_requests[receiving_process].push_back(MPI_Request());\n\n\t\t\t\t\tvoid* address = NULL;\n\t\t\t\t\tint count = -1;\n\t\t\t\t\tMPI_Datatype user_datatype = MPI_DATATYPE_NULL;\n\n\t\t\t\t\tstd::tie(\n\t\t\t\t\t\taddress,\n\t\t\t\t\t\tcount,\n\t\t\t\t\t\tuser_datatype\n\t\t\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\t\t\tthis->cell_data.at(cell),\n\t\t\t\t\t\tcell,\n\t\t\t\t\t\t(int) this->rank,\n\t\t\t\t\t\treceiving_process,\n\t\t\t\t\t\tfalse,\n\t\t\t\t\t\tneighborhood_id\n\t\t\t\t\t);\n\n\t\t\t\t\tconst bool is_named_datatype = Is_Named_Datatype()(user_datatype);\n\n\t\t\t\t\tif (!is_named_datatype) {\n\t\t\t\t\t\tret_val = MPI_Type_commit(&user_datatype);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_commit failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for datatype of cell " << cell\n\t\t\t\t\t\t\t\t<< " with returned buffer address " << address\n\t\t\t\t\t\t\t\t<< " and returned count " << count\n\t\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\n\t\t\t\t\tret_val = MPI_Isend(\n\t\t\t\t\t\taddress,\n\t\t\t\t\t\tcount,\n\t\t\t\t\t\tuser_datatype,\n\t\t\t\t\t\treceiving_process,\n\t\t\t\t\t\titem->second,\n\t\t\t\t\t\tthis->comm,\n\t\t\t\t\t\t&(this->send_requests[receiving_process].back())\n\t\t\t\t\t);\n\n\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t<< " MPI_Isend failed on process " << this->rank\n\t\t\t\t\t\t\t<< ", for cell " << cell\n\t\t\t\t\t\t\t<< ", to process " << receiving_process\n\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\tabort();\n\t\t\t\t\t}\n\n\t\t\t\t\tif (!is_named_datatype) {\n\t\t\t\t\t\tret_val = MPI_Type_free(&user_datatype);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_free failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for a derived datatype of cell " << cell\n\t\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\n\t\t\t} else { // if this->send_single_cells\n\n\t\t\t\t// get mpi transfer info from cells\n\t\t\t\tstd::vector<void*> addresses(number_of_sends, NULL);\n\t\t\t\tstd::vector<int> counts(number_of_sends, -1);\n\t\t\t\tstd::vector<MPI_Datatype> datatypes(number_of_sends, MPI_DATATYPE_NULL);\n\n\t\t\t\tfor (size_t i = 0; i < number_of_sends; i++) {\n\t\t\t\t\tconst uint64_t cell = receiver->second[i].first;\n\n\t\t\t\t\tstd::tie(\n\t\t\t\t\t\taddresses[i],\n\t\t\t\t\t\tcounts[i],\n\t\t\t\t\t\tdatatypes[i]\n\t\t\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\t\t\tthis->cell_data.at(cell),\n\t\t\t\t\t\tcell,\n\t\t\t\t\t\t(int) this->rank,\n\t\t\t\t\t\treceiving_process,\n\t\t\t\t\t\tfalse,\n\t\t\t\t\t\tneighborhood_id\n\t\t\t\t\t);\n\t\t\t\t}\n\n\t\t\t\t// get displacements in bytes for outgoing user data\n\t\t\t\tstd::vector<MPI_Aint> displacements(number_of_sends, 0);\n\t\t\t\tfor (size_t i = 0; i < number_of_sends; i++) {\n\t\t\t\t\tdisplacements[i] = (uint8_t*) addresses[i] - (uint8_t*) addresses[0];\n\t\t\t\t}\n\n\t\t\t\tMPI_Datatype send_datatype;\n\n\t\t\t\tret_val = MPI_Type_create_struct(\n\t\t\t\t\t(int) number_of_sends,\n\t\t\t\t\t&counts[0],\n\t\t\t\t\t&displacements[0],\n\t\t\t\t\t&datatypes[0],\n\t\t\t\t\t&send_datatype\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Type_create_struct failed for process " << this->rank\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val = MPI_Type_commit(&send_datatype);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Type_commit failed for process " << this->rank\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tthis->send_requests[receiver->first].push_back(MPI_Request());\n\n\t\t\t\tret_val = MPI_Isend(\n\t\t\t\t\taddresses[0],\n\t\t\t\t\t1,\n\t\t\t\t\tsend_datatype,\n\t\t\t\t\treceiver->first,\n\t\t\t\t\t0,\n\t\t\t\t\tthis->comm,\n\t\t\t\t\t&(this->send_requests[receiver->first].back())\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Isend failed from process " << this->rank\n\t\t\t\t\t\t<< ", target process " << receiver->first\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val = MPI_Type_free(&send_datatype);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t free datatype: " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tfor (auto& type: datatypes) {\n\t\t\t\t\tif (!Is_Named_Datatype()(type)) {\n\t\t\t\t\t\tret_val = MPI_Type_free(&type);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_free failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for a derived datatype of user data: "\n\t\t\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\treturn true;\n\t}\n\n\n', '\tbool start_user_data_sends(\n\t\tconst std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>& send_item,\n\t\tconst int neighborhood_id\n\t) {\n\t\tint ret_val = -1;\n\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::const_iterator\n\t\t\treceiver = send_item.begin();\n\t\t\treceiver != send_item.end();\n\t\t\treceiver++\n\t\t) {\n\t\t\tconst int receiving_process = receiver->first;\n\t\t\tconst size_t number_of_sends = receiver->second.size();\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (receiving_process == (int) this->rank\n\t\t\t&& number_of_sends > 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Trying to transfer to self"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tif (this->send_single_cells) {\n\n\t\t\t\tfor (std::vector<std::pair<uint64_t, int>>::const_iterator\n\t\t\t\t\titem = receiver->second.begin();\n\t\t\t\t\titem != receiver->second.end();\n\t\t\t\t\titem++\n\t\t\t\t) {\n\t\t\t\t\tconst uint64_t cell = item->first;\n\n\t\t\t\t\tthis->send_requests[receiving_process].push_back(MPI_Request());\n\n\t\t\t\t\tconst std::tuple<void*, int, MPI_Datatype> info = detail::get_cell_mpi_datatype(\n\t\t\t\t\t\tthis->cell_data.at(cell),\n\t\t\t\t\t\tcell,\n\t\t\t\t\t\t(int) this->rank,\n\t\t\t\t\t\treceiving_process,\n\t\t\t\t\t\tfalse,\n\t\t\t\t\t\tneighborhood_id\n\t\t\t\t\t);\n\t\t\t\t\tvoid* const address = std::get<0>(info);\n\t\t\t\t\tconst int count = std::get<1>(info);\n\t\t\t\t\tMPI_Datatype user_datatype = std::get<2>(info);\n\n\t\t\t\t\tconst bool is_named_datatype = Is_Named_Datatype()(user_datatype);\n\n\t\t\t\t\tif (!is_named_datatype) {\n\t\t\t\t\t\tret_val = MPI_Type_commit(&user_datatype);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_commit failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for datatype of cell " << cell\n\t\t\t\t\t\t\t\t<< " with returned buffer address " << address\n\t\t\t\t\t\t\t\t<< " and returned count " << count\n\t\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\n\t\t\t\t\tret_val = MPI_Isend(\n\t\t\t\t\t\taddress,\n\t\t\t\t\t\tcount,\n\t\t\t\t\t\tuser_datatype,\n\t\t\t\t\t\treceiving_process,\n\t\t\t\t\t\titem->second,\n\t\t\t\t\t\tthis->comm,\n\t\t\t\t\t\t&(this->send_requests[receiving_process].back())\n\t\t\t\t\t);\n\n\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t<< " MPI_Isend failed on process " << this->rank\n\t\t\t\t\t\t\t<< ", for cell " << cell\n\t\t\t\t\t\t\t<< ", to process " << receiving_process\n\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\tabort();\n\t\t\t\t\t}\n\n\t\t\t\t\tif (!is_named_datatype) {\n\t\t\t\t\t\tret_val = MPI_Type_free(&user_datatype);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_free failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for a derived datatype of cell " << cell\n\t\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\n\t\t\t} else { // if this->send_single_cells\n\n\t\t\t\t// get mpi transfer info from cells\n\t\t\t\tstd::vector<void*> addresses(number_of_sends, NULL);\n\t\t\t\tstd::vector<int> counts(number_of_sends, -1);\n\t\t\t\tstd::vector<MPI_Datatype> datatypes(number_of_sends, MPI_DATATYPE_NULL);\n\n\t\t\t\tfor (size_t i = 0; i < number_of_sends; i++) {\n\t\t\t\t\tconst uint64_t cell = receiver->second[i].first;\n\n\t\t\t\t\tstd::tie(\n\t\t\t\t\t\taddresses[i],\n\t\t\t\t\t\tcounts[i],\n\t\t\t\t\t\tdatatypes[i]\n\t\t\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\t\t\tthis->cell_data.at(cell),\n\t\t\t\t\t\tcell,\n\t\t\t\t\t\t(int) this->rank,\n\t\t\t\t\t\treceiving_process,\n\t\t\t\t\t\tfalse,\n\t\t\t\t\t\tneighborhood_id\n\t\t\t\t\t);\n\t\t\t\t}\n\n\t\t\t\t// get displacements in bytes for outgoing user data\n\t\t\t\tstd::vector<MPI_Aint> displacements(number_of_sends, 0);\n\t\t\t\tfor (size_t i = 0; i < number_of_sends; i++) {\n\t\t\t\t\tdisplacements[i] = (uint8_t*) addresses[i] - (uint8_t*) addresses[0];\n\t\t\t\t}\n\n\t\t\t\tMPI_Datatype send_datatype;\n\n\t\t\t\tret_val = MPI_Type_create_struct(\n\t\t\t\t\t(int) number_of_sends,\n\t\t\t\t\t&counts[0],\n\t\t\t\t\t&displacements[0],\n\t\t\t\t\t&datatypes[0],\n\t\t\t\t\t&send_datatype\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Type_create_struct failed for process " << this->rank\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val = MPI_Type_commit(&send_datatype);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Type_commit failed for process " << this->rank\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tthis->send_requests[receiver->first].push_back(MPI_Request());\n\n\t\t\t\tret_val = MPI_Isend(\n\t\t\t\t\taddresses[0],\n\t\t\t\t\t1,\n\t\t\t\t\tsend_datatype,\n\t\t\t\t\treceiver->first,\n\t\t\t\t\t0,\n\t\t\t\t\tthis->comm,\n\t\t\t\t\t&(this->send_requests[receiver->first].back())\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Isend failed from process " << this->rank\n\t\t\t\t\t\t<< ", target process " << receiver->first\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val = MPI_Type_free(&send_datatype);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t free datatype: " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tfor (auto& type: datatypes) {\n\t\t\t\t\tif (!Is_Named_Datatype()(type)) {\n\t\t\t\t\t\tret_val = MPI_Type_free(&type);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_free failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for a derived datatype of user data: "\n\t\t\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\treturn true;\n\t}\n\n\n'))
same('t-send-emplace', ('\tbool start_user_data_sends(\n\t\tconst std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>& send_item,\n\t\tconst int neighborhood_id\n\t) {\n\t\tint ret_val = -1;\n\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::const_iterator\n\t\t\treceiver = send_item.begin();\n\t\t\treceiver != send_item.end();\n\t\t\treceiver++\n\t\t) {\n\t\t\tconst int receiving_process = receiver->first;\n\t\t\tconst size_t number_of_sends = receiver->second.size();\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (receiving_process == (int) this->rank\n\t\t\t&& number_of_sends > 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Trying to transfer to self"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tif (this->send_single_cells) {\n\n\t\t\t\tfor (std::vector<std::pair<uint64_t, int>>::const_iterator\n\t\t\t\t\titem = receiver->second.begin();\n\t\t\t\t\titem != receiver->second.end();\n\t\t\t\t\titem++\n\t\t\t\t) {\n\t\t\t\t\tconst uint64_t cell = item->first;\n\n\t\t\t\t\tthis->send_requests[receiving_process].push_back(MPI_Request());\n\n\t\t\t\t\tvoid* address = NULL;\n\t\t\t\t\tint count = -1;\n\t\t\t\t\tMPI_Datatype user_datatype = MPI_DATATYPE_NULL;\n\n\t\t\t\t\tstd::tie(\n\t\t\t\t\t\taddress,\n\t\t\t\t\t\tcount,\n\t\t\t\t\t\tuser_datatype\n\t\t\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\t\t\tthis->cell_data.at(cell),\n\t\t\t\t\t\tcell,\n\t\t\t\t\t\t(int) this->rank,\n\t\t\t\t\t\treceiving_process,\n\t\t\t\t\t\tfalse,\n\t\t\t\t\t\tneighborhood_id\n\t\t\t\t\t);\n\n\t\t\t\t\tconst bool is_named_datatype = Is_Named_Datatype()(user_datatype);\n\n\t\t\t\t\tif (!is_named_datatype) {\n\t\t\t\t\t\tret_val = MPI_Type_commit(&user_datatype);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_commit failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for datatype of cell " << cell\n\t\t\t\t\t\t\t\t<< " with returned buffer address " << address\n\t\t\t\t\t\t\t\t<< " and returned count " << count\n\t\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\n\t\t\t\t\tret_val = MPI_Isend(\n\t\t\t\t\t\taddress,\n\t\t\t\t\t\tcount,\n\t\t\t\t\t\tuser_datatype,\n\t\t\t\t\t\treceiving_process,\n\t\t\t\t\t\titem->second,\n\t\t\t\t\t\tthis->comm,\n\t\t\t\t\t\t&(this->send_requests[receiving_process].back())\n\t\t\t\t\t);\n\n\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t<< " MPI_Isend failed on process " << this->rank\n\t\t\t\t\t\t\t<< ", for cell " << cell\n\t\t\t\t\t\t\t<< ", to process " << receiving_process\n\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\tabort();\n\t\t\t\t\t}\n\n\t\t\t\t\tif (!is_named_datatype) {\n\t\t\t\t\t\tret_val = MPI_Type_free(&user_datatype);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_free failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for a derived datatype of cell " << cell\n\t\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\n\t\t\t} else { // if this->send_single_cells\n\n\t\t\t\t// get mpi transfer info from cells\n\t\t\t\tstd::vector<void*> addresses(number_of_sends, NULL);\n\t\t\t\tstd::vector<int> counts(number_of_sends, -1);\n\t\t\t\tstd::vector<MPI_Datatype> datatypes(number_of_sends, MPI_DATATYPE_NULL);\n\n\t\t\t\tfor (size_t i = 0; i < number_of_sends; i++) {\n\t\t\t\t\tconst uint64_t cell = receiver->second[i].first;\n\n\t\t\t\t\tstd::tie(\n\t\t\t\t\t\taddresses[i],\n\t\t\t\t\t\tcounts[i],\n\t\t\t\t\t\tdatatypes[i]\n\t\t\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\t\t\tthis->cell_data.at(cell),\n\t\t\t\t\t\tcell,\n\t\t\t\t\t\t(int) this->rank,\n\t\t\t\t\t\treceiving_process,\n\t\t\t\t\t\tfalse,\n\t\t\t\t\t\tneighborhood_id\n\t\t\t\t\t);\n\t\t\t\t}\n\n\t\t\t\t// get displacements in bytes for outgoing user data\n\t\t\t\tstd::vector<MPI_Aint> displacements(number_of_sends, 0);\n\t\t\t\tfor (size_t i = 0; i < number_of_sends; i++) {\n\t\t\t\t\tdisplacements[i] = (uint8_t*) addresses[i] - (uint8_t*) addresses[0];\n\t\t\t\t}\n\n\t\t\t\tMPI_Datatype send_datatype;\n\n\t\t\t\tret_val = MPI_Type_create_struct(\n\t\t\t\t\t(int) number_of_sends,\n\t\t\t\t\t&counts[0],\n\t\t\t\t\t&displacements[0],\n\t\t\t\t\t&datatypes[0],\n\t\t\t\t\t&send_datatype\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Type_create_struct failed for process " << this->rank\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val = MPI_Type_commit(&send_datatype);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Type_commit failed for process " << this->rank\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tthis->send_requests[receiver->first].push_back(MPI_Request());\n\n\t\t\t\tret_val = MPI_Isend(\n\t\t\t\t\taddresses[0],\n\t\t\t\t\t1,\n\t\t\t\t\tsend_datatype,\n\t\t\t\t\treceiver->first,\n\t\t\t\t\t0,\n\t\t\t\t\tthis->comm,\n\t\t\t\t\t&(this->send_requests[receiver->first].back())\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Isend failed from process " << this->rank\n\t\t\t\t\t\t<< ", target process " << receiver->first\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val = MPI_Type_free(&send_datatype);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t free datatype: " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tfor (auto& type: datatypes) {\n\t\t\t\t\tif (!Is_Named_Datatype()(type)) {\n\t\t\t\t\t\tret_val = MPI_Type_free(&type);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_free failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for a derived datatype of user data: "\n\t\t\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\treturn true;\n\t}\n\n\n', '\tbool start_user_data_sends(\n\t\tconst std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>& send_item,\n\t\tconst int neighborhood_id\n\t) {\n\t\tint ret_val = -1;\n\n\t\tfor (std::unordered_map<int, std::vector<std::pair<uint64_t, int>>>::const_iterator\n\t\t\treceiver = send_item.begin();\n\t\t\treceiver != send_item.end();\n\t\t\treceiver++\n\t\t) {\n\t\t\tconst int receiving_process = receiver->first;\n\t\t\tconst size_t number_of_sends = receiver->second.size();\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (receiving_process == (int) this->rank\n\t\t\t&& number_of_sends > 0) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Trying to transfer to self"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\tif (this->send_single_cells) {\n\n\t\t\t\tfor (std::vector<std::pair<uint64_t, int>>::const_iterator\n\t\t\t\t\titem = receiver->second.begin();\n\t\t\t\t\titem != receiver->second.end();\n\t\t\t\t\titem++\n\t\t\t\t) {\n\t\t\t\t\tconst uint64_t cell = item->first;\n\n\t\t\t\t\tvoid* address = NULL;\n\t\t\t\t\tint count = -1;\n\t\t\t\t\tMPI_Datatype user_datatype = MPI_DATATYPE_NULL;\n\n\t\t\t\t\tstd::tie(\n\t\t\t\t\t\taddress,\n\t\t\t\t\t\tcount,\n\t\t\t\t\t\tuser_datatype\n\t\t\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\t\t\tthis->cell_data.at(cell),\n\t\t\t\t\t\tcell,\n\t\t\t\t\t\t(int) this->rank,\n\t\t\t\t\t\treceiving_process,\n\t\t\t\t\t\tfalse,\n\t\t\t\t\t\tneighborhood_id\n\t\t\t\t\t);\n\n\t\t\t\t\tconst bool is_named_datatype = Is_Named_Datatype()(user_datatype);\n\n\t\t\t\t\tif (!is_named_datatype) {\n\t\t\t\t\t\tret_val = MPI_Type_commit(&user_datatype);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_commit failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for datatype of cell " << cell\n\t\t\t\t\t\t\t\t<< " with returned buffer address " << address\n\t\t\t\t\t\t\t\t<< " and returned count " << count\n\t\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\n\t\t\t\t\tMPI_Request request;\n\t\t\t\t\tret_val = MPI_Isend(\n\t\t\t\t\t\taddress,\n\t\t\t\t\t\tcount,\n\t\t\t\t\t\tuser_datatype,\n\t\t\t\t\t\treceiving_process,\n\t\t\t\t\t\titem->second,\n\t\t\t\t\t\tthis->comm,\n\t\t\t\t\t\t&request\n\t\t\t\t\t);\n\t\t\t\t\tthis->send_requests[receiving_process].push_back(request);\n\n\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t<< " MPI_Isend failed on process " << this->rank\n\t\t\t\t\t\t\t<< ", for cell " << cell\n\t\t\t\t\t\t\t<< ", to process " << receiving_process\n\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\tabort();\n\t\t\t\t\t}\n\n\t\t\t\t\tif (!is_named_datatype) {\n\t\t\t\t\t\tret_val = MPI_Type_free(&user_datatype);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_free failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for a derived datatype of cell " << cell\n\t\t\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\n\t\t\t} else { // if this->send_single_cells\n\n\t\t\t\t// get mpi transfer info from cells\n\t\t\t\tstd::vector<void*> addresses(number_of_sends, NULL);\n\t\t\t\tstd::vector<int> counts(number_of_sends, -1);\n\t\t\t\tstd::vector<MPI_Datatype> datatypes(number_of_sends, MPI_DATATYPE_NULL);\n\n\t\t\t\tfor (size_t i = 0; i < number_of_sends; i++) {\n\t\t\t\t\tconst uint64_t cell = receiver->second[i].first;\n\n\t\t\t\t\tstd::tie(\n\t\t\t\t\t\taddresses[i],\n\t\t\t\t\t\tcounts[i],\n\t\t\t\t\t\tdatatypes[i]\n\t\t\t\t\t) = detail::get_cell_mpi_datatype(\n\t\t\t\t\t\tthis->cell_data.at(cell),\n\t\t\t\t\t\tcell,\n\t\t\t\t\t\t(int) this->rank,\n\t\t\t\t\t\treceiving_process,\n\t\t\t\t\t\tfalse,\n\t\t\t\t\t\tneighborhood_id\n\t\t\t\t\t);\n\t\t\t\t}\n\n\t\t\t\t// get displacements in bytes for outgoing user data\n\t\t\t\tstd::vector<MPI_Aint> displacements(number_of_sends, 0);\n\t\t\t\tfor (size_t i = 0; i < number_of_sends; i++) {\n\t\t\t\t\tdisplacements[i] = (uint8_t*) addresses[i] - (uint8_t*) addresses[0];\n\t\t\t\t}\n\n\t\t\t\tMPI_Datatype send_datatype;\n\n\t\t\t\tret_val = MPI_Type_create_struct(\n\t\t\t\t\t(int) number_of_sends,\n\t\t\t\t\t&counts[0],\n\t\t\t\t\t&displacements[0],\n\t\t\t\t\t&datatypes[0],\n\t\t\t\t\t&send_datatype\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Type_create_struct failed for process " << this->rank\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val = MPI_Type_commit(&send_datatype);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Type_commit failed for process " << this->rank\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tthis->send_requests[receiver->first].push_back(MPI_Request());\n\n\t\t\t\tret_val = MPI_Isend(\n\t\t\t\t\taddresses[0],\n\t\t\t\t\t1,\n\t\t\t\t\tsend_datatype,\n\t\t\t\t\treceiver->first,\n\t\t\t\t\t0,\n\t\t\t\t\tthis->comm,\n\t\t\t\t\t&(this->send_requests[receiver->first].back())\n\t\t\t\t);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " MPI_Isend failed from process " << this->rank\n\t\t\t\t\t\t<< ", target process " << receiver->first\n\t\t\t\t\t\t<< ": " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tret_val = MPI_Type_free(&send_datatype);\n\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< " Couldn\'t free datatype: " << Error_String()(ret_val)\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\t\t\t\tfor (auto& type: datatypes) {\n\t\t\t\t\tif (!Is_Named_Datatype()(type)) {\n\t\t\t\t\t\tret_val = MPI_Type_free(&type);\n\t\t\t\t\t\tif (ret_val != MPI_SUCCESS) {\n\t\t\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t\t\t<< " MPI_Type_free failed on process " << this->rank\n\t\t\t\t\t\t\t\t<< ", for a derived datatype of user data: "\n\t\t\t\t\t\t\t\t<< Error_String()(ret_val)\n\t\t\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\t\t\tabort();\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\treturn true;\n\t}\n\n\n'))
same('t-list-owner', ('\tvoid recalculate_neighbor_update_send_receive_lists(const int neighborhood_id)\n\t{\n\t\t#ifdef DEBUG\n\t\tif (this->user_local_cells_on_process_boundary.count(neighborhood_id) == 0) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " No neighborhood with id " << neighborhood_id\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t// clear previous lists\n\t\tthis->user_neigh_cells_to_send[neighborhood_id].clear();\n\t\tthis->user_neigh_cells_to_receive[neighborhood_id].clear();\n\n\t\tstd::unordered_map<int, std::unordered_set<uint64_t>>\n\t\t\tuser_neigh_unique_sends,\n\t\t\tuser_neigh_unique_receives;\n\n\t\t// calculate new lists for neighbor data updates\n\t\tfor (const uint64_t cell: this->user_local_cells_on_process_boundary.at(neighborhood_id)) {\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (cell != this->get_child(cell)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << cell << " has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\t// data must be received from neighbors_of\n\t\t\tfor (const auto& neighbor_i: this->user_neigh_of.at(neighborhood_id).at(cell)) {\n\t\t\t\tconst auto& neighbor = neighbor_i.first;\n\n\t\t\t\tif (neighbor == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.at(neighbor) != this->rank) {\n\t\t\t\t\tuser_neigh_unique_receives[int(this->cell_process.at(neighbor))].insert(neighbor);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// data must be sent to neighbors_to\n\t\t\tfor (const auto& neighbor_i: this->user_neigh_to.at(neighborhood_id).at(cell)) {\n\t\t\t\tconst auto& neighbor = neighbor_i.first;\n\n\t\t\t\tif (neighbor == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.at(neighbor) != this->rank) {\n\t\t\t\t\tuser_neigh_unique_sends[int(this->cell_process.at(neighbor))].insert(cell);\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\t// populate final send list data structures and sort them\n\t\tfor (std::unordered_map<int, std::unordered_set<uint64_t>>::const_iterator\n\t\t\treceiver = user_neigh_unique_sends.begin();\n\t\t\treceiver != user_neigh_unique_sends.end();\n\t\t\treceiver++\n\t\t) {\n\t\t\tconst int receiving_process = receiver->first;\n\n\t\t\tstd::vector<std::pair<uint64_t, int>>& current_cells_to_send\n\t\t\t\t= this->user_neigh_cells_to_send.at(neighborhood_id)[receiving_process];\n\n\t\t\tcurrent_cells_to_send.reserve(receiver->second.size());\n\n\t\t\tfor (const uint64_t cell: receiver->second) {\n\t\t\t\tcurrent_cells_to_send.push_back(std::make_pair(cell, -1));\n\t\t\t}\n\n\t\t\tstd::sort(current_cells_to_send.begin(), current_cells_to_send.end());\n\n\t\t\t// sequential tags for messages: 1, 2, ...\n\t\t\tfor (unsigned int i = 0; i < current_cells_to_send.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tconst uint64_t cell = current_cells_to_send[i].first;\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << cell\n\t\t\t\t\t\t<< " to process " << receiving_process\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tcurrent_cells_to_send[i].second = tag;\n\t\t\t}\n\t\t}\n\n\t\t// populate final receive list data structures and sort them\n\t\tfor (std::unordered_map<int, std::unordered_set<uint64_t>>::const_iterator\n\t\t\tsender = user_neigh_unique_receives.begin();\n\t\t\tsender != user_neigh_unique_receives.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tconst int sending_process = sender->first;\n\n\t\t\tstd::vector<std::pair<uint64_t, int>>& current_cells_to_receive\n\t\t\t\t= this->user_neigh_cells_to_receive[neighborhood_id][sending_process];\n\n\t\t\tcurrent_cells_to_receive.reserve(sender->second.size());\n\n\t\t\tfor (const uint64_t cell: sender->second) {\n\t\t\t\tcurrent_cells_to_receive.push_back(std::make_pair(cell, -1));\n\t\t\t}\n\n\t\t\tstd::sort(current_cells_to_receive.begin(), current_cells_to_receive.end());\n\n\t\t\t// sequential tags for messages: 1, 2, ...\n\t\t\tfor (unsigned int i = 0; i < current_cells_to_receive.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tconst uint64_t cell = current_cells_to_receive[i].first;\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << cell\n\t\t\t\t\t\t<< " from process " << sending_process\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tcurrent_cells_to_receive[i].second = tag;\n\t\t\t}\n\t\t}\n\t}\n\n\n\t// recalculates neighbors_of and _to for all known cells\n\t// using update_neighbors(cell)\n', '\tvoid recalculate_neighbor_update_send_receive_lists(const int neighborhood_id)\n\t{\n\t\t#ifdef DEBUG\n\t\tif (this->user_local_cells_on_process_boundary.count(neighborhood_id) == 0) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " No neighborhood with id " << neighborhood_id\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t// clear previous lists\n\t\tthis->user_neigh_cells_to_send[neighborhood_id].clear();\n\t\tthis->user_neigh_cells_to_receive[neighborhood_id].clear();\n\n\t\tstd::unordered_map<int, std::unordered_set<uint64_t>>\n\t\t\tuser_neigh_unique_sends,\n\t\t\tuser_neigh_unique_receives;\n\n\t\t// calculate new lists for neighbor data updates\n\t\tfor (const uint64_t cell: this->user_local_cells_on_process_boundary.at(neighborhood_id)) {\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (cell != this->get_child(cell)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << cell << " has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\t// data must be received from neighbors_of\n\t\t\tfor (const auto& neighbor_i: this->user_neigh_of.at(neighborhood_id).at(cell)) {\n\t\t\t\tconst auto& neighbor = neighbor_i.first;\n\n\t\t\t\tif (neighbor == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tconst uint64_t owner = this->cell_process.at(neighbor);\n\t\t\t\tif (owner == this->rank) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tuser_neigh_unique_receives[int(owner)].insert(neighbor);\n\t\t\t}\n\n\t\t\t// data must be sent to neighbors_to\n\t\t\tfor (const auto& neighbor_i: this->user_neigh_to.at(neighborhood_id).at(cell)) {\n\t\t\t\tconst auto& neighbor = neighbor_i.first;\n\n\t\t\t\tif (neighbor == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.at(neighbor) != this->rank) {\n\t\t\t\t\tuser_neigh_unique_sends[int(this->cell_process.at(neighbor))].insert(cell);\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\t// populate final send list data structures and sort them\n\t\tfor (std::unordered_map<int, std::unordered_set<uint64_t>>::const_iterator\n\t\t\treceiver = user_neigh_unique_sends.begin();\n\t\t\treceiver != user_neigh_unique_sends.end();\n\t\t\treceiver++\n\t\t) {\n\t\t\tconst int receiving_process = receiver->first;\n\n\t\t\tstd::vector<std::pair<uint64_t, int>>& current_cells_to_send\n\t\t\t\t= this->user_neigh_cells_to_send.at(neighborhood_id)[receiving_process];\n\n\t\t\tcurrent_cells_to_send.reserve(receiver->second.size());\n\n\t\t\tfor (const uint64_t cell: receiver->second) {\n\t\t\t\tcurrent_cells_to_send.push_back(std::make_pair(cell, -1));\n\t\t\t}\n\n\t\t\tstd::sort(current_cells_to_send.begin(), current_cells_to_send.end());\n\n\t\t\t// sequential tags for messages: 1, 2, ...\n\t\t\tfor (unsigned int i = 0; i < current_cells_to_send.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tconst uint64_t cell = current_cells_to_send[i].first;\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << cell\n\t\t\t\t\t\t<< " to process " << receiving_process\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tcurrent_cells_to_send[i].second = tag;\n\t\t\t}\n\t\t}\n\n\t\t// populate final receive list data structures and sort them\n\t\tfor (std::unordered_map<int, std::unordered_set<uint64_t>>::const_iterator\n\t\t\tsender = user_neigh_unique_receives.begin();\n\t\t\tsender != user_neigh_unique_receives.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tconst int sending_process = sender->first;\n\n\t\t\tstd::vector<std::pair<uint64_t, int>>& current_cells_to_receive\n\t\t\t\t= this->user_neigh_cells_to_receive[neighborhood_id][sending_process];\n\n\t\t\tcurrent_cells_to_receive.reserve(sender->second.size());\n\n\t\t\tfor (const uint64_t cell: sender->second) {\n\t\t\t\tcurrent_cells_to_receive.push_back(std::make_pair(cell, -1));\n\t\t\t}\n\n\t\t\tstd::sort(current_cells_to_receive.begin(), current_cells_to_receive.end());\n\n\t\t\t// sequential tags for messages: 1, 2, ...\n\t\t\tfor (unsigned int i = 0; i < current_cells_to_receive.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tconst uint64_t cell = current_cells_to_receive[i].first;\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << cell\n\t\t\t\t\t\t<< " from process " << sending_process\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tcurrent_cells_to_receive[i].second = tag;\n\t\t\t}\n\t\t}\n\t}\n\n\n\t// recalculates neighbors_of and _to for all known cells\n\t// using update_neighbors(cell)\n'))
same('t-list-set', ('\tvoid recalculate_neighbor_update_send_receive_lists(const int neighborhood_id)\n\t{\n\t\t#ifdef DEBUG\n\t\tif (this->user_local_cells_on_process_boundary.count(neighborhood_id) == 0) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " No neighborhood with id " << neighborhood_id\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t// clear previous lists\n\t\tthis->user_neigh_cells_to_send[neighborhood_id].clear();\n\t\tthis->user_neigh_cells_to_receive[neighborhood_id].clear();\n\n\t\tstd::unordered_map<int, std::unordered_set<uint64_t>>\n\t\t\tuser_neigh_unique_sends,\n\t\t\tuser_neigh_unique_receives;\n\n\t\t// calculate new lists for neighbor data updates\n\t\tfor (const uint64_t cell: this->user_local_cells_on_process_boundary.at(neighborhood_id)) {\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (cell != this->get_child(cell)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << cell << " has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\t// data must be received from neighbors_of\n\t\t\tfor (const auto& neighbor_i: this->user_neigh_of.at(neighborhood_id).at(cell)) {\n\t\t\t\tconst auto& neighbor = neighbor_i.first;\n\n\t\t\t\tif (neighbor == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.at(neighbor) != this->rank) {\n\t\t\t\t\tuser_neigh_unique_receives[int(this->cell_process.at(neighbor))].insert(neighbor);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// data must be sent to neighbors_to\n\t\t\tfor (const auto& neighbor_i: this->user_neigh_to.at(neighborhood_id).at(cell)) {\n\t\t\t\tconst auto& neighbor = neighbor_i.first;\n\n\t\t\t\tif (neighbor == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.at(neighbor) != this->rank) {\n\t\t\t\t\tuser_neigh_unique_sends[int(this->cell_process.at(neighbor))].insert(cell);\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\t// populate final send list data structures and sort them\n\t\tfor (std::unordered_map<int, std::unordered_set<uint64_t>>::const_iterator\n\t\t\treceiver = user_neigh_unique_sends.begin();\n\t\t\treceiver != user_neigh_unique_sends.end();\n\t\t\treceiver++\n\t\t) {\n\t\t\tconst int receiving_process = receiver->first;\n\n\t\t\tstd::vector<std::pair<uint64_t, int>>& current_cells_to_send\n\t\t\t\t= this->user_neigh_cells_to_send.at(neighborhood_id)[receiving_process];\n\n\t\t\tcurrent_cells_to_send.reserve(receiver->second.size());\n\n\t\t\tfor (const uint64_t cell: receiver->second) {\n\t\t\t\tcurrent_cells_to_send.push_back(std::make_pair(cell, -1));\n\t\t\t}\n\n\t\t\tstd::sort(current_cells_to_send.begin(), current_cells_to_send.end());\n\n\t\t\t// sequential tags for messages: 1, 2, ...\n\t\t\tfor (unsigned int i = 0; i < current_cells_to_send.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tconst uint64_t cell = current_cells_to_send[i].first;\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << cell\n\t\t\t\t\t\t<< " to process " << receiving_process\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tcurrent_cells_to_send[i].second = tag;\n\t\t\t}\n\t\t}\n\n\t\t// populate final receive list data structures and sort them\n\t\tfor (std::unordered_map<int, std::unordered_set<uint64_t>>::const_iterator\n\t\t\tsender = user_neigh_unique_receives.begin();\n\t\t\tsender != user_neigh_unique_receives.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tconst int sending_process = sender->first;\n\n\t\t\tstd::vector<std::pair<uint64_t, int>>& current_cells_to_receive\n\t\t\t\t= this->user_neigh_cells_to_receive[neighborhood_id][sending_process];\n\n\t\t\tcurrent_cells_to_receive.reserve(sender->second.size());\n\n\t\t\tfor (const uint64_t cell: sender->second) {\n\t\t\t\tcurrent_cells_to_receive.push_back(std::make_pair(cell, -1));\n\t\t\t}\n\n\t\t\tstd::sort(current_cells_to_receive.begin(), current_cells_to_receive.end());\n\n\t\t\t// sequential tags for messages: 1, 2, ...\n\t\t\tfor (unsigned int i = 0; i < current_cells_to_receive.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tconst uint64_t cell = current_cells_to_receive[i].first;\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << cell\n\t\t\t\t\t\t<< " from process " << sending_process\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tcurrent_cells_to_receive[i].second = tag;\n\t\t\t}\n\t\t}\n\t}\n\n\n\t// recalculates neighbors_of and _to for all known cells\n\t// using update_neighbors(cell)\n', '\tvoid recalculate_neighbor_update_send_receive_lists(const int neighborhood_id)\n\t{\n\t\t#ifdef DEBUG\n\t\tif (this->user_local_cells_on_process_boundary.count(neighborhood_id) == 0) {\n\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t<< " No neighborhood with id " << neighborhood_id\n\t\t\t\t<< std::endl;\n\t\t\tabort();\n\t\t}\n\t\t#endif\n\n\t\t// clear previous lists\n\t\tthis->user_neigh_cells_to_send[neighborhood_id].clear();\n\t\tthis->user_neigh_cells_to_receive[neighborhood_id].clear();\n\n\t\tstd::unordered_map<int, std::unordered_set<uint64_t>>\n\t\t\tuser_neigh_unique_sends,\n\t\t\tuser_neigh_unique_receives;\n\n\t\t// calculate new lists for neighbor data updates\n\t\tfor (const uint64_t cell: this->user_local_cells_on_process_boundary.at(neighborhood_id)) {\n\n\t\t\t#ifdef DEBUG\n\t\t\tif (cell != this->get_child(cell)) {\n\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t<< " Cell " << cell << " has children"\n\t\t\t\t\t<< std::endl;\n\t\t\t\tabort();\n\t\t\t}\n\t\t\t#endif\n\n\t\t\t// data must be received from neighbors_of\n\t\t\tfor (const auto& neighbor_i: this->user_neigh_of.at(neighborhood_id).at(cell)) {\n\t\t\t\tconst auto& neighbor = neighbor_i.first;\n\n\t\t\t\tif (neighbor == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.at(neighbor) != this->rank) {\n\t\t\t\t\tuser_neigh_unique_receives[int(this->cell_process.at(neighbor))].insert(neighbor);\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// data must be sent to neighbors_to\n\t\t\tfor (const auto& neighbor_i: this->user_neigh_to.at(neighborhood_id).at(cell)) {\n\t\t\t\tconst auto& neighbor = neighbor_i.first;\n\n\t\t\t\tif (neighbor == error_cell) {\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\n\t\t\t\tif (this->cell_process.at(neighbor) != this->rank) {\n\t\t\t\t\tuser_neigh_unique_sends[int(this->cell_process.at(neighbor))].insert(cell);\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\n\t\t// populate final send list data structures and sort them\n\t\tfor (std::unordered_map<int, std::unordered_set<uint64_t>>::const_iterator\n\t\t\treceiver = user_neigh_unique_sends.begin();\n\t\t\treceiver != user_neigh_unique_sends.end();\n\t\t\treceiver++\n\t\t) {\n\t\t\tconst int receiving_process = receiver->first;\n\n\t\t\tstd::vector<std::pair<uint64_t, int>>& current_cells_to_send\n\t\t\t\t= this->user_neigh_cells_to_send.at(neighborhood_id)[receiving_process];\n\n\t\t\tstd::vector<uint64_t> sorted_cells(receiver->second.begin(), receiver->second.end());\n\t\t\tstd::sort(sorted_cells.begin(), sorted_cells.end());\n\t\t\tfor (const uint64_t cell: sorted_cells) {\n\t\t\t\tcurrent_cells_to_send.push_back(std::make_pair(cell, -1));\n\t\t\t}\n\n\t\t\t// sequential tags for messages: 1, 2, ...\n\t\t\tfor (unsigned int i = 0; i < current_cells_to_send.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tconst uint64_t cell = current_cells_to_send[i].first;\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for sending cell " << cell\n\t\t\t\t\t\t<< " to process " << receiving_process\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tcurrent_cells_to_send[i].second = tag;\n\t\t\t}\n\t\t}\n\n\t\t// populate final receive list data structures and sort them\n\t\tfor (std::unordered_map<int, std::unordered_set<uint64_t>>::const_iterator\n\t\t\tsender = user_neigh_unique_receives.begin();\n\t\t\tsender != user_neigh_unique_receives.end();\n\t\t\tsender++\n\t\t) {\n\t\t\tconst int sending_process = sender->first;\n\n\t\t\tstd::vector<std::pair<uint64_t, int>>& current_cells_to_receive\n\t\t\t\t= this->user_neigh_cells_to_receive[neighborhood_id][sending_process];\n\n\t\t\tcurrent_cells_to_receive.reserve(sender->second.size());\n\n\t\t\tfor (const uint64_t cell: sender->second) {\n\t\t\t\tcurrent_cells_to_receive.push_back(std::make_pair(cell, -1));\n\t\t\t}\n\n\t\t\tstd::sort(current_cells_to_receive.begin(), current_cells_to_receive.end());\n\n\t\t\t// sequential tags for messages: 1, 2, ...\n\t\t\tfor (unsigned int i = 0; i < current_cells_to_receive.size(); i++) {\n\t\t\t\tconst int tag = (int) i + 1;\n\t\t\t\tif (tag > (int) this->max_tag) {\n\t\t\t\t\tconst uint64_t cell = current_cells_to_receive[i].first;\n\t\t\t\t\tstd::cerr << __FILE__ << ":" << __LINE__\n\t\t\t\t\t\t<< " Process " << this->rank\n\t\t\t\t\t\t<< ": Message tag would overflow for receiving cell " << cell\n\t\t\t\t\t\t<< " from process " << sending_process\n\t\t\t\t\t\t<< std::endl;\n\t\t\t\t\tabort();\n\t\t\t\t}\n\n\t\t\t\tcurrent_cells_to_receive[i].second = tag;\n\t\t\t}\n\t\t}\n\t}\n\n\n\t// recalculates neighbors_of and _to for all known cells\n\t// using update_neighbors(cell)\n'))
