From 5dcbeee667127039994f27631fa976f13c05336a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:16 +0000
Subject: [PATCH 01/48] fix: BitVector with a size that is a multiple of 512

get_padding_mask returned an all-zero mask for a completely used last block,
so are_all_set ignored the last block and growing with value=true filled the
wrong bits; resizing a copy of an empty vector wrote before the buffer.
---
 src/bit_vector.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bit_vector.cpp b/src/bit_vector.cpp
index 3d7d888..ad5a3b7 100644
--- a/src/bit_vector.cpp
+++ b/src/bit_vector.cpp
@@ -116,6 +116,8 @@ namespace {
 		v8_uint64_t u = {0};
 
 		uint64_t x = size % 512;
+		if(x == 0 && size != 0)
+			x = 512;
 		uint8_t i = 0;
 		while(x >= 64){
 			u[i++] = ~0ull;
@@ -310,11 +312,11 @@ void BitVector::resize(uint64_t new_size, BitVector::Uninitialized){
 }
 
 void BitVector::resize(uint64_t new_size, bool value){
-	if(data_ == nullptr){
+	if(size_ == 0){
 		*this = BitVector(new_size, value);
 	}else{
 		assert(are_all_padding_bits_zero(*this));
-		if(new_size < size_) {
+		if(new_size <= size_) {
 			resize(new_size, uninitialized);
 		} else if(get_uint8_count(new_size) == get_uint8_count(size_)){
 			if(value == false){
-- 
2.43.0


From 8ccb2ab5ec2a08e23f4d0e63dd731e3dc9e0faec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:17 +0000
Subject: [PATCH 02/48] fix: geo_dist no longer returns NaN when rounding
 pushes the cosine out of [-1,1]

---
 include/routingkit/geo_dist.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/routingkit/geo_dist.h b/include/routingkit/geo_dist.h
index 0bf59bb..fd3361b 100644
--- a/include/routingkit/geo_dist.h
+++ b/include/routingkit/geo_dist.h
@@ -115,6 +115,13 @@ inline double geo_dist(double lat_a, double lon_a, double lat_b, double lon_b){
 
 	double len = (vec[0] + vec[1]) * vec[2] + vec[0] - vec[1];
 	len *= 0.5;
+
+	// Rounding errors can push the cosine slightly out of acos' domain
+	if(len > 1.0)
+		len = 1.0;
+	if(len < -1.0)
+		len = -1.0;
+
 	len  = acos(len);
 	len *= earth_radius;
 
-- 
2.43.0


From 9fc99901747c0bd023c14d409ccb72cffb213734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:30 +0000
Subject: [PATCH 03/48] fix: apply_permutation_to_possibly_invalid_elements_of
 must skip invalid_id

---
 include/routingkit/permutation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/routingkit/permutation.h b/include/routingkit/permutation.h
index 4863817..f476f8c 100644
--- a/include/routingkit/permutation.h
+++ b/include/routingkit/permutation.h
@@ -128,7 +128,7 @@ std::vector<unsigned> apply_permutation_to_possibly_invalid_elements_of(const st
 	assert(std::all_of(v.begin(), v.end(), [&](unsigned x){return x < p.size() || x == invalid_id;}) && "v has an out of bounds element");
 	
 	std::vector<unsigned> r = v;
-	inplace_apply_permutation_to_elements_of(p, r);
+	inplace_apply_permutation_to_possibly_invalid_elements_of(p, r);
 	return r; // NVRO
 }
 
-- 
2.43.0


From 4b708fc5989ce4b61d2120dc63b3688deeab57c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:30 +0000
Subject: [PATCH 04/48] fix: convert_arc_path_to_node_path left the second node
 of the path unconverted

---
 src/graph_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_util.cpp b/src/graph_util.cpp
index fda7e37..c98d9f7 100644
--- a/src/graph_util.cpp
+++ b/src/graph_util.cpp
@@ -69,7 +69,7 @@ std::vector<unsigned>convert_node_path_to_arc_path(const std::vector<unsigned>&f
 std::vector<unsigned>convert_arc_path_to_node_path(unsigned source, const std::vector<unsigned>&head, std::vector<unsigned>path){
 	if(!path.empty()){
 		path.resize(path.size()+1);
-		for(unsigned i=path.size()-1; i>1; --i)
+		for(unsigned i=path.size()-1; i>0; --i)
 			path[i] = head[path[i-1]];
 		path[0] = source;
 	}
-- 
2.43.0


From 0a7760e9ce1901d0a3c5182347ed56806f94cdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:30 +0000
Subject: [PATCH 05/48] fix: TagMap::clear left the old entries visible through
 size, empty and iteration

---
 include/routingkit/tag_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/routingkit/tag_map.h b/include/routingkit/tag_map.h
index 2de6a27..2f1acc3 100644
--- a/include/routingkit/tag_map.h
+++ b/include/routingkit/tag_map.h
@@ -55,6 +55,8 @@ public:
 			entry_begin[x>>16] = 0;
 			entry_end[x>>16] = 0;
 		}
+		hash_element_list.clear();
+		entry.clear();
 	}
 
 	template<class GetKey, class GetValue>
-- 
2.43.0


From 84b11444bf0172ae5b25a0b544f781aa37d86b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:30 +0000
Subject: [PATCH 06/48] fix: FileDataSource::size threw on success

---
 src/file_data_source.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_data_source.cpp b/src/file_data_source.cpp
index 0ad4ed9..51b61fa 100644
--- a/src/file_data_source.cpp
+++ b/src/file_data_source.cpp
@@ -73,7 +73,7 @@ unsigned long long FileDataSource::size()const{
 		return 0;
 	else{
 		struct ::stat buf;
-		if(!::fstat(file_descriptor, &buf)){
+		if(::fstat(file_descriptor, &buf)){
 			int error = errno;
 			throw std::runtime_error(std::string("Could not determine the size of a file open for reading. The errno is ")+std::to_string(error)+". strerror(errno) says the following : "+strerror(error));
 		}
-- 
2.43.0


From b8b869dd699f090125387763df7c23649ce83225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:30 +0000
Subject: [PATCH 07/48] fix: FileDataSource move assignment leaked the
 previously open file

---
 src/file_data_source.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/file_data_source.cpp b/src/file_data_source.cpp
index 51b61fa..954bc8c 100644
--- a/src/file_data_source.cpp
+++ b/src/file_data_source.cpp
@@ -37,8 +37,11 @@ FileDataSource::FileDataSource(FileDataSource&&o):
 }
 
 const FileDataSource&FileDataSource::operator=(FileDataSource&&o){
-	file_descriptor = o.file_descriptor;
-	o.file_descriptor = -1;
+	if(this != &o){
+		close();
+		file_descriptor = o.file_descriptor;
+		o.file_descriptor = -1;
+	}
 	return *this;
 }
 
@@ -114,8 +117,11 @@ FileDataSource::FileDataSource(FileDataSource&&o):
 }
 
 const FileDataSource&FileDataSource::operator=(FileDataSource&&o){
-	file_descriptor = o.file_descriptor;
-	o.file_descriptor = nullptr;
+	if(this != &o){
+		close();
+		file_descriptor = o.file_descriptor;
+		o.file_descriptor = nullptr;
+	}
 	return *this;
 }
 
-- 
2.43.0


From 0aa3ed6fb430e31c80f4d8bd968609b7860d8572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:32 +0000
Subject: [PATCH 08/48] fix: reject varints that do not fit into 64 bits
 instead of shifting by 64 or more

---
 src/protobuf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protobuf.cpp b/src/protobuf.cpp
index d14f799..e309d0f 100644
--- a/src/protobuf.cpp
+++ b/src/protobuf.cpp
@@ -13,7 +13,7 @@ uint64_t decode_varint_as_uint64_and_advance_first_parameter(const char*&begin,
 	uint8_t mask = ~high_bit;
 
 	while((*begin & high_bit) != 0){
-		if(shift == 7*9 && ((uint8_t)*begin) != (1|high_bit))
+		if(shift == 7*9)
 			throw std::runtime_error("Cannot decode varint because the value does not fit into 64 bit.");
 		n |= ((uint64_t)(((uint8_t)*begin) & mask))<<shift;
 		shift += 7;
@@ -21,6 +21,8 @@ uint64_t decode_varint_as_uint64_and_advance_first_parameter(const char*&begin,
 		if(begin == end)
 			throw std::runtime_error("Protobuf message is corrupt because varint was not terminated before the end of the message.");
 	}
+	if(shift == 7*9 && ((uint8_t)*begin) > 1)
+		throw std::runtime_error("Cannot decode varint because the value does not fit into 64 bit.");
 	n |= ((uint64_t)(((uint8_t)*begin) & mask)) << shift;
 	++begin;
 
-- 
2.43.0


From 3b5879c7518683ef309abdf30932cb89344d6f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:32 +0000
Subject: [PATCH 09/48] fix: BufferedAsynchronousReader published a read error
 without holding the lock

The reading thread could miss the notification between testing its wait
condition and going to sleep, and then waited forever.
---
 src/buffered_asynchronous_reader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buffered_asynchronous_reader.cpp b/src/buffered_asynchronous_reader.cpp
index 9ecc5c8..e0326b5 100644
--- a/src/buffered_asynchronous_reader.cpp
+++ b/src/buffered_asynchronous_reader.cpp
@@ -131,6 +131,8 @@ BufferedAsynchronousReader::BufferedAsynchronousReader(
 					ptr->worker_thread_has_done_something.notify_one();
 				}
 			}catch(...){
+				if(!guard.owns_lock())
+					guard.lock();
 				ptr->read_exception = std::current_exception();
 				ptr->worker_thread_has_done_something.notify_one();
 			}
-- 
2.43.0


From b14d582e1a7d79cb099ca8f6c86f170617aa3f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:32 +0000
Subject: [PATCH 10/48] fix: saving a vector silently lost data when the file
 could not be opened or written

---
 include/routingkit/vector_io.h | 3 +++
 src/vector_io.cpp              | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/include/routingkit/vector_io.h b/include/routingkit/vector_io.h
index 4de32ad..99e6b4d 100644
--- a/include/routingkit/vector_io.h
+++ b/include/routingkit/vector_io.h
@@ -19,6 +19,9 @@ void save_vector(const std::string&file_name, const std::vector<T>&vec){
 	if(!out)
 		throw std::runtime_error("Can not open \""+file_name+"\" for writing.");
 	out.write(reinterpret_cast<const char*>(&vec[0]), vec.size()*sizeof(T));
+	out.close();
+	if(!out)
+		throw std::runtime_error("Can not write to \""+file_name+"\".");
 }
 
 template<class T>
diff --git a/src/vector_io.cpp b/src/vector_io.cpp
index 331cdd3..6053164 100644
--- a/src/vector_io.cpp
+++ b/src/vector_io.cpp
@@ -5,10 +5,15 @@ namespace RoutingKit{
 template<>
 void save_vector<std::string>(const std::string&file_name, const std::vector<std::string>&vec){
 	std::ofstream out(file_name, std::ios::binary);
+	if(!out)
+		throw std::runtime_error("Can not open \""+file_name+"\" for writing.");
 	for(unsigned i=0; i<vec.size(); ++i){
 		const char*x = vec[i].c_str();
 		out.write(x, vec[i].length()+1);
 	}
+	out.close();
+	if(!out)
+		throw std::runtime_error("Can not write to \""+file_name+"\".");
 }
 
 template<>
@@ -41,6 +46,9 @@ void save_bit_vector(const std::string&file_name, const BitVector&vec){
 	uint64_t size = vec.size();
 	out.write(reinterpret_cast<const char*>(&size), 8);
 	out.write(reinterpret_cast<const char*>(vec.data()), vec.uint512_count()*64);
+	out.close();
+	if(!out)
+		throw std::runtime_error("Can not write to \""+file_name+"\".");
 }
 
 BitVector load_bit_vector(const std::string&file_name){
-- 
2.43.0


From 8a78658a3347e1a702b3d3a81ccd586d44cef534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:32 +0000
Subject: [PATCH 11/48] fix: load_bit_vector accepted an 8 byte file whose size
 header makes the size computation wrap

---
 src/vector_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector_io.cpp b/src/vector_io.cpp
index 6053164..85972ba 100644
--- a/src/vector_io.cpp
+++ b/src/vector_io.cpp
@@ -61,7 +61,7 @@ BitVector load_bit_vector(const std::string&file_name){
 	
 	uint64_t size;
 	in.read(reinterpret_cast<char*>(&size), 8);
-	if(((size+511)/512) * 64 + 8 != file_size)
+	if(!in || size/8 > file_size || ((size+511)/512) * 64 + 8 != file_size)
 		throw std::runtime_error("File \""+file_name+"\" can not be a bit vector of the requested size because the size in the header and the file size do not correspond.");
 	BitVector vec(size);
 	in.read(reinterpret_cast<char*>(vec.data()), (((size+511)/512) * 64));
-- 
2.43.0


From 381d90c48934abf6325f167d0ecbf077c8b719f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:52 +0000
Subject: [PATCH 12/48] fix: decomposing a graph without nodes read out of
 bounds

---
 src/nested_dissection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nested_dissection.cpp b/src/nested_dissection.cpp
index 7907c87..9f58979 100644
--- a/src/nested_dissection.cpp
+++ b/src/nested_dissection.cpp
@@ -661,6 +661,9 @@ std::vector<GraphFragment>decompose_graph_fragment_into_connected_components(Gra
 
 	std::vector<GraphFragment>part_list;
 
+	if(node_count == 0)
+		return part_list;
+
 	auto generate_part = [&](unsigned component_node_begin, unsigned component_node_end, unsigned component_arc_begin, unsigned component_arc_end){
 		GraphFragment part;
 
-- 
2.43.0


From 7b35f5869656a4bacb5cc52d8c23dc4f3acf6763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:53 +0000
Subject: [PATCH 13/48] fix: CCH construction failed without a logger and on a
 graph without nodes

---
 src/customizable_contraction_hierarchy.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 04f29a3..963b7ff 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -416,7 +416,7 @@ CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 		log_message("Finished computing elimination tree, needed "+std::to_string(timer)+"musec");
 	}
 
-	if(log_message){
+	if(log_message && node_count != 0){
 		std::vector<unsigned>
 			nodes_in_search_space(node_count, 0),
 			arcs_in_search_space(node_count, 0);
@@ -449,9 +449,10 @@ CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 	}
 
 	// filter up graph
-	if(!filter_always_inf_arcs)
-		log_message("Not filtering upward arcs");
-	else
+	if(!filter_always_inf_arcs){
+		if(log_message)
+			log_message("Not filtering upward arcs");
+	}else
 	{
 		if(log_message){
 			log_message("Start filtering upward arcs");
-- 
2.43.0


From 780831e94366e5ad1a9e232d7aedcb8bb26eb123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:53 +0000
Subject: [PATCH 14/48] fix: building a CH with the perfect witness search
 corrupted the CCH metric

Queries with paths and partial customizations that use the metric afterwards
returned wrong results.
---
 src/customizable_contraction_hierarchy.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 963b7ff..2764e8d 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -1728,6 +1728,9 @@ std::vector<unsigned> CustomizableContractionHierarchyQuery::get_distances_to_so
 ContractionHierarchy CustomizableContractionHierarchyMetric::build_contraction_hierarchy_using_perfect_witness_search(){
 	customize();
 
+	// The perfect customization below overwrites the metric but the user must be able to continue to use it afterwards
+	std::vector<unsigned>customized_forward = forward, customized_backward = backward;
+
 	BitVector
 		keep_forward_arc(cch->cch_arc_count(), true),
 		keep_backward_arc(cch->cch_arc_count(), true);
@@ -1888,6 +1891,9 @@ ContractionHierarchy CustomizableContractionHierarchyMetric::build_contraction_h
 
 	check_contraction_hierarchy_for_errors(ch);
 
+	forward = std::move(customized_forward);
+	backward = std::move(customized_backward);
+
 	return ch;
 }
 
-- 
2.43.0


From c0bc44e48131a5dc99ef0c895bfc1f1bdf61ca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:53 +0000
Subject: [PATCH 15/48] fix: resetting a default constructed CCH query compared
 an uninitialized pointer

---
 include/routingkit/customizable_contraction_hierarchy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/routingkit/customizable_contraction_hierarchy.h b/include/routingkit/customizable_contraction_hierarchy.h
index 942d91c..8399fcf 100644
--- a/include/routingkit/customizable_contraction_hierarchy.h
+++ b/include/routingkit/customizable_contraction_hierarchy.h
@@ -123,7 +123,7 @@ struct CustomizableContractionHierarchyPartialCustomization{
 };
 
 struct CustomizableContractionHierarchyQuery{
-	CustomizableContractionHierarchyQuery(){}
+	CustomizableContractionHierarchyQuery():shortest_path_meeting_node(invalid_id), cch(nullptr), metric(nullptr), state(0){}
 	explicit CustomizableContractionHierarchyQuery(const CustomizableContractionHierarchyMetric&metric);
 
 	CustomizableContractionHierarchyQuery&reset();
-- 
2.43.0


From 8931c8c9ab702914c14a9dfde9284ba4b12ec080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:53 +0000
Subject: [PATCH 16/48] fix: Dijkstra::reset must compare with the size of its
 own arrays

The previously used graph may have been modified or destroyed in the meantime.
---
 include/routingkit/dijkstra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/routingkit/dijkstra.h b/include/routingkit/dijkstra.h
index 6a3d3e3..585f969 100644
--- a/include/routingkit/dijkstra.h
+++ b/include/routingkit/dijkstra.h
@@ -40,7 +40,7 @@ public:
 		assert(first_out.back() == tail.size());
 		assert(first_out.back() == head.size());
 
-		if(this->first_out != nullptr && first_out.size() == this->first_out->size()){
+		if(this->first_out != nullptr && first_out.size()-1 == tentative_distance.size()){
 			this->first_out = &first_out;
 			this->head = &head;
 			this->tail = &tail;
-- 
2.43.0


From ed15ffc5d9bf6d366b883543fb5de6adcdc91d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:18 +0000
Subject: [PATCH 17/48] fix: copying a CCH left the copy's ID mappers pointing
 into the original

---
 .../customizable_contraction_hierarchy.h      |  8 +++++++
 src/customizable_contraction_hierarchy.cpp    | 23 +++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/include/routingkit/customizable_contraction_hierarchy.h b/include/routingkit/customizable_contraction_hierarchy.h
index 8399fcf..7b86ac6 100644
--- a/include/routingkit/customizable_contraction_hierarchy.h
+++ b/include/routingkit/customizable_contraction_hierarchy.h
@@ -19,6 +19,14 @@ struct CustomizableContractionHierarchy{
 
 	CustomizableContractionHierarchy(std::vector<unsigned>order, std::vector<unsigned>tail, std::vector<unsigned>head, std::function<void(const std::string&)>log_message = [](const std::string&){}, bool filter_always_inf_arcs = false);
 
+	// The ID mappers point into the bit vectors of the same object, copying must therefore rebuild them
+	CustomizableContractionHierarchy(const CustomizableContractionHierarchy&o);
+	CustomizableContractionHierarchy(CustomizableContractionHierarchy&&) = default;
+	CustomizableContractionHierarchy&operator=(const CustomizableContractionHierarchy&o){
+		return *this = CustomizableContractionHierarchy(o);
+	}
+	CustomizableContractionHierarchy&operator=(CustomizableContractionHierarchy&&) = default;
+
 	unsigned node_count()const{
 		return rank.size();
 	}
diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 2764e8d..005646e 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -193,6 +193,29 @@ namespace{
 	#endif
 }
 
+CustomizableContractionHierarchy::CustomizableContractionHierarchy(const CustomizableContractionHierarchy&o):
+	order(o.order),
+	rank(o.rank),
+	elimination_tree_parent(o.elimination_tree_parent),
+	up_first_out(o.up_first_out),
+	up_head(o.up_head),
+	up_tail(o.up_tail),
+	down_first_out(o.down_first_out),
+	down_head(o.down_head),
+	down_to_up(o.down_to_up),
+	input_arc_to_cch_arc(o.input_arc_to_cch_arc),
+	is_input_arc_upward(o.is_input_arc_upward),
+	does_cch_arc_have_input_arc(o.does_cch_arc_have_input_arc),
+	does_cch_arc_have_input_arc_mapper(does_cch_arc_have_input_arc),
+	forward_input_arc_of_cch(o.forward_input_arc_of_cch),
+	backward_input_arc_of_cch(o.backward_input_arc_of_cch),
+	does_cch_arc_have_extra_input_arc(o.does_cch_arc_have_extra_input_arc),
+	does_cch_arc_have_extra_input_arc_mapper(does_cch_arc_have_extra_input_arc),
+	first_extra_forward_input_arc_of_cch(o.first_extra_forward_input_arc_of_cch),
+	first_extra_backward_input_arc_of_cch(o.first_extra_backward_input_arc_of_cch),
+	extra_forward_input_arc_of_cch(o.extra_forward_input_arc_of_cch),
+	extra_backward_input_arc_of_cch(o.extra_backward_input_arc_of_cch){}
+
 CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 	std::vector<unsigned>arg_order,
 	std::vector<unsigned>input_tail,
-- 
2.43.0


From f9beff95879a4ff8b36cc1acda0f69d62feb8cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:35 +0000
Subject: [PATCH 18/48] fix: pinning more targets than there are nodes wrote
 out of bounds

The list of pinned nodes may contain a node several times.
---
 src/contraction_hierarchy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 794c7c6..8df3205 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1870,6 +1870,8 @@ namespace{
 		const std::vector<unsigned>&backward_weight
 	){
 		target_count = external_target_list.size();
+		if(target_list.size() < target_count)
+			target_list.resize(target_count);
 
 		for(unsigned i=0; i<target_count; ++i){
 			unsigned t = external_target_list[i];
-- 
2.43.0


From ba6effbafb817eee80c88419009c26fa3dbf6d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:35 +0000
Subject: [PATCH 19/48] fix: CH shortcut weights of inf_weight or more wrapped
 around

A shortcut that is not shorter than inf_weight can never be part of a finite
path, and adding it let later sums wrap to small finite distances.
---
 src/contraction_hierarchy.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 8df3205..cc6c2c1 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -329,6 +329,8 @@ namespace{
 					continue;
 
 				unsigned next_node_distance = distance_to_popped_node + graph_out(popped_node, out_arc).weight;
+				if(next_node_distance >= inf_weight)
+					continue;
 
 				if(was_forward_pushed.is_set(next_node)){
 					if(next_node_distance < forward_tentative_distance[next_node]){
@@ -535,7 +537,7 @@ namespace{
 			shorter_path_test.pin_source(in_node, node);
 			for(unsigned out_arc = 0; out_arc < graph.out_deg(node); ++out_arc){
 				unsigned out_node = graph.out(node, out_arc).node;
-				if(in_node != out_node){
+				if(in_node != out_node && graph.in(node, in_arc).weight + graph.out(node, out_arc).weight < inf_weight){
 					if(
 						!shorter_path_test.does_shorter_or_equal_path_to_target_exist(
 							out_node,
@@ -569,7 +571,7 @@ namespace{
 			shorter_path_test.pin_source(in_node, node_being_contracted);
 			for(unsigned out_arc = 0; out_arc < graph.out_deg(node_being_contracted); ++out_arc){
 				unsigned out_node = graph.out(node_being_contracted, out_arc).node;
-				if(in_node != out_node){
+				if(in_node != out_node && graph.in(node_being_contracted, in_arc).weight + graph.out(node_being_contracted, out_arc).weight < inf_weight){
 					if(
 						!shorter_path_test.does_shorter_or_equal_path_to_target_exist(
 							out_node,
-- 
2.43.0


From d32fb2336358c0ca6f0e3fdda90953201e4a4bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:20 +0000
Subject: [PATCH 20/48] fix: OSM PBF string ids equal to the string table size
 were read out of bounds

---
 src/osm_decoder.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index b71b87e..144159e 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -365,13 +365,13 @@ namespace {
 					key_list.size(),
 					[&](uint64_t i){
 						i = key_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: key string ID is out of bounds.");
 						return string_table[i];
 					},
 					[&](uint64_t i){
 						i = value_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: value string ID is out of bounds.");
 						return string_table[i];
 					}
@@ -438,13 +438,13 @@ namespace {
 							key_list.size(),
 							[&](uint64_t i){
 								i = key_list[i];
-								if(i > string_table.size())
+								if(i >= string_table.size())
 									throw std::runtime_error("PBF error: key string ID is out of bounds.");
 								return string_table[i];
 							},
 							[&](uint64_t i){
 								i = value_list[i];
-								if(i > string_table.size())
+								if(i >= string_table.size())
 									throw std::runtime_error("PBF error: value string ID is out of bounds.");
 								return string_table[i];
 							}
@@ -508,13 +508,13 @@ namespace {
 					key_list.size(),
 					[&](uint64_t i){
 						i = key_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: key string ID is out of bounds.");
 						return string_table[i];
 					},
 					[&](uint64_t i){
 						i = value_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: value string ID is out of bounds.");
 						return string_table[i];
 					}
@@ -588,13 +588,13 @@ namespace {
 					key_list.size(),
 					[&](uint64_t i){
 						i = key_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: key string ID is out of bounds.");
 						return string_table[i];
 					},
 					[&](uint64_t i){
 						i = value_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: value string ID is out of bounds.");
 						return string_table[i];
 					}
-- 
2.43.0


From eb24aadf109957c0709cbae13ae7299ab7440f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:20 +0000
Subject: [PATCH 21/48] fix: decode OSM PBF node coordinates and ids as
 osmpbfformat.proto defines them

Non-dense nodes have a zigzag encoded id and the fields 8 and 9, the block
offsets are plain int64 values, apply once per node, and the longitude of dense
nodes must use the longitude offset.
---
 src/osm_decoder.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 144159e..7f68cce 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -285,9 +285,9 @@ namespace {
 					if(key_id == 17)
 						latlon_granularity = num;
 					else if(key_id == 19)
-						offset_of_latitude = zigzag_convert_uint64_to_int64(num);
+						offset_of_latitude = static_cast<int64_t>(num);
 					else if(key_id == 20)
-						offset_of_longitude = zigzag_convert_uint64_to_int64(num);
+						offset_of_longitude = static_cast<int64_t>(num);
 
 				},
 				[&](uint64_t key_id, double num){},
@@ -315,8 +315,8 @@ namespace {
 			if(latlon_granularity == 0)
 				throw std::runtime_error("PBF error: latlon_granularity of a block must not be zero.");
 
-			double primblock_lon_offset = 0.000000001 * offset_of_latitude;
-			double primblock_lat_offset = 0.000000001 * offset_of_longitude;
+			double primblock_lat_offset = 0.000000001 * offset_of_latitude;
+			double primblock_lon_offset = 0.000000001 * offset_of_longitude;
 			double primblock_granularity = 0.000000001 * latlon_granularity;
 
 			auto decode_sparse_node = [&](const char*begin, const char*end){
@@ -331,11 +331,11 @@ namespace {
 					begin, end,
 					[&](uint64_t key_id, uint64_t num){
 						if(key_id == 1)
-							osm_node_id = num;
-						else if(key_id == 19)
-							latitude = primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
-						else if(key_id == 20)
-							longitude = primblock_lat_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
+							osm_node_id = zigzag_convert_uint64_to_int64(num);
+						else if(key_id == 8)
+							latitude = primblock_lat_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
+						else if(key_id == 9)
+							longitude = primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
 					},
 					[&](uint64_t key_id, double num){},
 					[&](uint64_t key_id, const char*begin, const char*end){
@@ -418,11 +418,13 @@ namespace {
 				tag_map.clear();
 
 				uint64_t osm_node_id = 0;
-				double latitude = 0.0, longitude = 0.0;
+				uint64_t latitude_sum = 0, longitude_sum = 0;
 				while(osm_node_id_begin != osm_node_id_end){
 					osm_node_id += zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(osm_node_id_begin, osm_node_id_end));
-					latitude += primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(latitude_begin, latitude_end));
-					longitude += primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(longitude_begin, longitude_end));
+					latitude_sum += zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(latitude_begin, latitude_end));
+					longitude_sum += zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(longitude_begin, longitude_end));
+					double latitude = primblock_lat_offset + primblock_granularity * static_cast<int64_t>(latitude_sum);
+					double longitude = primblock_lon_offset + primblock_granularity * static_cast<int64_t>(longitude_sum);
 					if(key_value_pairs_begin != nullptr){
 						key_list.clear();
 						value_list.clear();
-- 
2.43.0


From 689f90f670ec2c247fb0c4a1736c3f50d0426cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:20 +0000
Subject: [PATCH 22/48] fix: accept an explicitly empty key-value array in OSM
 PBF dense nodes

---
 src/osm_decoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 7f68cce..a06982f 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -401,7 +401,7 @@ namespace {
 						}else if(key_id == 9){
 							longitude_begin = begin;
 							longitude_end = end;
-						}else if(key_id == 10){
+						}else if(key_id == 10 && begin != end){
 							key_value_pairs_begin = begin;
 							key_value_pairs_end = end;
 						}
-- 
2.43.0


From 677822c5465b247527c1909ab3dd6539adae1ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:20 +0000
Subject: [PATCH 23/48] fix: ordered_read_osm_pbf waited forever when the file
 is empty or its first block corrupt

---
 src/osm_decoder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index a06982f..e94f418 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -91,6 +91,14 @@ namespace{
 
 				const char*blob_begin, *blob_end;
 
+				// Once this function terminates nobody may continue to wait for header information,
+				// even if there is none because the file is empty or corrupt.
+				struct SignalHeaderInfo{
+					uint64_t&status;
+					~SignalHeaderInfo(){ status |= is_header_info_available_bit; }
+				}signal_header_info = {status};
+				(void)signal_header_info;
+
 				for(;;){
 					char*p = reader.read(4);
 					if(p == nullptr)
-- 
2.43.0


From c41c796ae2ec939449354b181f345ea79e9814a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:34 +0000
Subject: [PATCH 24/48] fix: travel times of arcs longer than 238 km wrapped
 around

---
 src/osm_simple.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/osm_simple.cpp b/src/osm_simple.cpp
index 5410e1f..fbbe11c 100644
--- a/src/osm_simple.cpp
+++ b/src/osm_simple.cpp
@@ -51,9 +51,11 @@ SimpleOSMCarRoutingGraph simple_load_osm_car_routing_graph_from_pbf(
 
 	ret.travel_time = ret.geo_distance;
 	for(unsigned a=0; a<ret.travel_time.size(); ++a){
-		ret.travel_time[a] *= 18000;
-		ret.travel_time[a] /= way_speed[routing_graph.way[a]];
-		ret.travel_time[a] /= 5;
+		uint64_t travel_time = ret.travel_time[a];
+		travel_time *= 18000;
+		travel_time /= way_speed[routing_graph.way[a]];
+		travel_time /= 5;
+		ret.travel_time[a] = travel_time;
 	}
 
 	ret.forbidden_turn_from_arc = std::move(routing_graph.forbidden_turn_from_arc);
-- 
2.43.0


From 6fd94cefd2185d272bce7b89845cd4c401c1dec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:27 +0000
Subject: [PATCH 25/48] fix: IDSetMinQueue::pop on an empty queue did not
 return invalid_id as documented

---
 include/routingkit/id_set_queue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/routingkit/id_set_queue.h b/include/routingkit/id_set_queue.h
index fc285aa..fd18133 100644
--- a/include/routingkit/id_set_queue.h
+++ b/include/routingkit/id_set_queue.h
@@ -169,7 +169,8 @@ public:
 	//! Returns the smallest ID in the queue and removes it.
 	//! Returns invalid_id if the queue is empty.
 	unsigned pop() {
-		assert(!empty());
+		if(empty())
+			return invalid_id;
 
 		unsigned ret = min_id;
 
-- 
2.43.0


From 1177651bda8c2ae0bfadae640bd871628bb91612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:10 +0000
Subject: [PATCH 26/48] fix: OSM PBF header features were compared past the end
 of string literals, and prefixes of them were accepted

---
 src/osm_decoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index e94f418..93baa45 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -154,10 +154,10 @@ namespace{
 							[&](uint64_t key_id, double num){},
 							[&](uint64_t key_id, const char*str_begin, const char*str_end){
 								if(key_id == 4){ // must support
-									if(!std::equal(str_begin, str_end, "DenseNodes"))
+									if(std::string(str_begin, str_end) != "DenseNodes")
 										throw std::runtime_error("Required OSM PBF feature \""+std::string(str_begin, str_end)+"\" is unknown");
 								}else if(key_id == 5){ // may exploit
-									if(std::equal(str_begin, str_end, "Sort.Type_then_ID"))
+									if(std::string(str_begin, str_end) == "Sort.Type_then_ID")
 										is_ordered = true;
 								}
 							}
-- 
2.43.0


From 074d1111b5b58d72e862417c5518bcb31d50a78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:54 +0000
Subject: [PATCH 27/48] fix: open_file_for_saving did not notice when the last
 buffered bytes could not be written

---
 include/routingkit/vector_io.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/routingkit/vector_io.h b/include/routingkit/vector_io.h
index 99e6b4d..ebbc881 100644
--- a/include/routingkit/vector_io.h
+++ b/include/routingkit/vector_io.h
@@ -161,6 +161,9 @@ void open_file_for_saving(const std::string&file_name, const F&f){
 	if(!out)
 		throw std::runtime_error("Can not open \""+file_name+"\" for writing.");
 	f(out);
+	out.close();
+	if(!out)
+		throw std::runtime_error("Can not write to \""+file_name+"\".");
 }
 
 template<class F>
-- 
2.43.0


From 8c2b52841bf217cb3544292a88ec72f2893f35f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:54 +0000
Subject: [PATCH 28/48] fix: turn restrictions without via node were ignored if
 the to-way leaves the only crossing node through two arcs

---
 src/osm_graph_builder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/osm_graph_builder.cpp b/src/osm_graph_builder.cpp
index c5e0130..3a96d09 100644
--- a/src/osm_graph_builder.cpp
+++ b/src/osm_graph_builder.cpp
@@ -523,10 +523,10 @@ OSMRoutingGraph load_osm_routing_graph_from_pbf(
 						for(auto i=first_index_of_way[in->to_way]; i!=first_index_of_way[in->to_way+1]; ++i){
 							auto arc = index_to_arc[i];
 							if(is_head_of_from_way[tail[arc]]){
-								if(via_node != invalid_id){
-									second_via_node = tail[arc];
-								} else {
+								if(via_node == invalid_id){
 									via_node = tail[arc];
+								} else if(via_node != tail[arc]){
+									second_via_node = tail[arc];
 								}
 							}
 						}
-- 
2.43.0


From 09a2452f971c4037de112b899cec0481c6d02cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:10 +0000
Subject: [PATCH 29/48] fix: GeoPositionToNode missed points because the tree
 was built with single precision distances that are kilometres off near the
 antipode

---
 src/geo_position_to_node.cpp | 65 ++----------------------------------
 1 file changed, 2 insertions(+), 63 deletions(-)

diff --git a/src/geo_position_to_node.cpp b/src/geo_position_to_node.cpp
index d095f46..61e25dd 100644
--- a/src/geo_position_to_node.cpp
+++ b/src/geo_position_to_node.cpp
@@ -41,70 +41,9 @@ namespace{
 
 			construct_tree(d, begin, mid);
 
-			// Slower but simpler code			
-			// for(auto i=mid; i!=end; ++i)
-			//	d[i].distance_to_pivot = compute_distance(d[mid].position, d[i].position);
-
-			// Faster more complex vectorized code
-			{
-				const float pi = 3.14159265359;
-				const float R = 6371000.785; // earth radius in meter
-				const float inv_180 = 1.0 / 180;
-
-				float a_lat = d[mid].position.latitude;
-				float a_lon = d[mid].position.longitude;
-
-				a_lat *= inv_180;
-				a_lat *= pi;
-				a_lon *= inv_180;
-				a_lon *= pi;
-
-				const unsigned vector_width = 16;
-				for(unsigned i=mid; i<end; i+=vector_width){
-
-					float b_lat[vector_width];
-					float b_lon[vector_width];
-					float a_[vector_width];
-
-					unsigned element_count = vector_width;
-					if(end - i < element_count)
-						element_count = end - i;
-
-					for(unsigned j=0; j<element_count; ++j){
-						b_lat[j] = d[i+j].position.latitude;
-						b_lon[j] = d[i+j].position.longitude;
-					}
-
-					for(unsigned j=element_count; j<vector_width; ++j){
-						b_lat[j] = 0;
-						b_lon[j] = 0;
-					}
-
-					// GCC5's auto vectorizer is clever enough to vectorize this loop 
-					// OpenMP does not harm but is not needed
-					// #pragma omp simd
-					for(unsigned j=0; j<vector_width; ++j){
-						b_lat[j] *= inv_180;
-						b_lat[j] *= pi;
-						b_lon[j] *= inv_180;
-						b_lon[j] *= pi;
-
-						float dlat = b_lat[j] - a_lat;
-						float dlon = b_lon[j] - a_lon;
-
-						a_[j] = sinf(dlat*0.5) * sinf(dlat*0.5) + sinf(dlon*0.5) * sinf(dlon*0.5) * cosf(a_lat) * cosf(b_lat[j]);
-					}
-
-					for(unsigned j=0; j<element_count; ++j){
-						// GCC5 does not have vectorized versions of atan2f nor sqrtf
-						// we therefore call the sequential functions as they would prevent the vectorization of the previous loop
-						float c = 2 * atan2f(sqrtf(a_[j]), sqrtf(1-a_[j]));
-						d[i+j].distance_to_pivot = R * c;
-					}
-				}
+			for(auto i=mid; i!=end; ++i)
+				d[i].distance_to_pivot = compute_distance(d[mid].position, d[i].position);
 
-			}
-	
 			construct_tree(d, mid, end);
 		}
 	}
-- 
2.43.0


From 0352f4b57a0cb0c9783ff108e07dbc59ea23c869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:18 +0000
Subject: [PATCH 30/48] fix: decode_vector printed 8 bit integers as characters
 instead of numbers

---
 src/decode_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decode_vector.cpp b/src/decode_vector.cpp
index ab8afe2..1a2f639 100644
--- a/src/decode_vector.cpp
+++ b/src/decode_vector.cpp
@@ -13,7 +13,7 @@ void convert_num_data(const string&input_vector_file){
 	vector<T>v = load_vector<T>(input_vector_file);
 
 	for(auto&x:v)
-		cout << std::setprecision(std::numeric_limits<T>::digits10+1) << x << '\n';
+		cout << std::setprecision(std::numeric_limits<T>::digits10+1) << +x << '\n';
 }
 
 string replace_all_substrings(string subject, const string& search, const string& replace) {
-- 
2.43.0


From b97cbcca019ddc08b2b25251ee8fd48fa2a20603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:18 +0000
Subject: [PATCH 31/48] fix: decode_vector printed too few digits to recover
 floating point numbers exactly

---
 src/decode_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decode_vector.cpp b/src/decode_vector.cpp
index 1a2f639..c255180 100644
--- a/src/decode_vector.cpp
+++ b/src/decode_vector.cpp
@@ -13,7 +13,7 @@ void convert_num_data(const string&input_vector_file){
 	vector<T>v = load_vector<T>(input_vector_file);
 
 	for(auto&x:v)
-		cout << std::setprecision(std::numeric_limits<T>::digits10+1) << +x << '\n';
+		cout << std::setprecision(std::numeric_limits<T>::max_digits10) << +x << '\n';
 }
 
 string replace_all_substrings(string subject, const string& search, const string& replace) {
-- 
2.43.0


From 237122190a5ef078f1ef94bc0510ace8354196d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:18 +0000
Subject: [PATCH 32/48] fix: encode_vector turned an escaped backslash that is
 followed by the letter n into a line feed

---
 src/encode_vector.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/encode_vector.cpp b/src/encode_vector.cpp
index 4f25cb6..e9879c8 100644
--- a/src/encode_vector.cpp
+++ b/src/encode_vector.cpp
@@ -42,20 +42,24 @@ void convert_uint64_data(const string&output_vector_file){
 	save_vector(output_vector_file, v);
 }
 
-string replace_all_substrings(string subject, const string& search, const string& replace) {
-    size_t pos = 0;
-    while ((pos = subject.find(search, pos)) != std::string::npos) {
-         subject.replace(pos, search.length(), replace);
-         pos += replace.length();
-    }
-    return subject;
+string unescape(const string& s) {
+	string result;
+	for(size_t i=0; i<s.length(); ++i){
+		if(s[i] == '\\' && i+1 < s.length() && (s[i+1] == '\\' || s[i+1] == 'n')){
+			++i;
+			result += s[i] == 'n' ? '\n' : '\\';
+		}else{
+			result += s[i];
+		}
+	}
+	return result;
 }
 
 void convert_string_data(const string&output_vector_file){
 	string line;
 	vector<string>v;
 	while(getline(cin, line)){
-		v.push_back(replace_all_substrings(replace_all_substrings(line, "\\\\", "\\"), "\\n", "\n"));
+		v.push_back(unescape(line));
 	}
 	save_vector(output_vector_file, v);
 }
-- 
2.43.0


From 09861eaa0409c8f42b1bce792f348e6b6c290b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:18 +0000
Subject: [PATCH 33/48] fix: convert_road_dimacs_graph used an uninitialized
 node count if the file contains no header

---
 src/convert_road_dimacs_graph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/convert_road_dimacs_graph.cpp b/src/convert_road_dimacs_graph.cpp
index 0d06d2b..060cc0d 100644
--- a/src/convert_road_dimacs_graph.cpp
+++ b/src/convert_road_dimacs_graph.cpp
@@ -80,6 +80,9 @@ int main(int argc, char*argv[]){
 			}
 		}
 
+		if(!was_header_read)
+			throw std::runtime_error("The header is missing in dimacs file.");
+
 		if(next_arc != arc_count)
 			throw std::runtime_error("The arc count in the header ("+to_string(arc_count)+") does not correspond with the actual number of arcs ("+to_string(next_arc)+").");
 
-- 
2.43.0


From e0f885162ad1fff13b27997f165082afeb0663f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:18 +0000
Subject: [PATCH 34/48] fix: convert_road_dimacs_coordinates used an
 uninitialized node count if the file contains no header

---
 src/convert_road_dimacs_coordinates.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/convert_road_dimacs_coordinates.cpp b/src/convert_road_dimacs_coordinates.cpp
index 110aef3..492f648 100644
--- a/src/convert_road_dimacs_coordinates.cpp
+++ b/src/convert_road_dimacs_coordinates.cpp
@@ -88,6 +88,9 @@ int main(int argc, char*argv[]){
 			}
 		}
 
+		if(!was_header_read)
+			throw std::runtime_error("The header is missing in dimacs file.");
+
 		for(unsigned i=0; i<node_count; ++i)
 			if(!seen[i])
 				throw runtime_error("Position for node "+std::to_string(i)+" is missing");
-- 
2.43.0


From 8de92110188aac8a29c9cec902dd36e556247bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:18 +0000
Subject: [PATCH 35/48] fix: run_dijkstra read the maximum of an empty vector
 if the graph has no arcs

---
 src/run_dijkstra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/run_dijkstra.cpp b/src/run_dijkstra.cpp
index 0115a6a..1236331 100644
--- a/src/run_dijkstra.cpp
+++ b/src/run_dijkstra.cpp
@@ -56,7 +56,7 @@ int main(int argc, char*argv[]){
 			throw runtime_error("The first element of first out must be 0.");
 		if(first_out.back() != arc_count)
 			throw runtime_error("The last element of first out must be the arc count.");
-		if(max_element_of(head) >= node_count)
+		if(!head.empty() && max_element_of(head) >= node_count)
 			throw runtime_error("The head vector contains an out-of-bounds node id.");
 		if(weight.size() != arc_count)
 			throw runtime_error("The weight vector must be as long as the number of arcs");
-- 
2.43.0


From 744cc717f937c2e7658d2a823cab141d9450293b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:18 +0000
Subject: [PATCH 36/48] fix: run_dijkstra and run_contraction_hierarchy_query
 divided by zero if there are no queries

---
 src/run_contraction_hierarchy_query.cpp | 3 ++-
 src/run_dijkstra.cpp                    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/run_contraction_hierarchy_query.cpp b/src/run_contraction_hierarchy_query.cpp
index ff3ff84..c010dd1 100644
--- a/src/run_contraction_hierarchy_query.cpp
+++ b/src/run_contraction_hierarchy_query.cpp
@@ -67,7 +67,8 @@ int main(int argc, char*argv[]){
 		cout << "done" << endl;
 
 		cout << "max running time : " << time_max << "musec" << endl;
-		cout << "avg running time : " << time_sum/query_count << "musec" << endl;
+		if(query_count != 0)
+			cout << "avg running time : " << time_sum/query_count << "musec" << endl;
 
 		save_vector(distance_file, distance);
 
diff --git a/src/run_dijkstra.cpp b/src/run_dijkstra.cpp
index 1236331..83ebb88 100644
--- a/src/run_dijkstra.cpp
+++ b/src/run_dijkstra.cpp
@@ -106,7 +106,8 @@ int main(int argc, char*argv[]){
 		cout << "done" << endl;
 
 		cout << "max running time : " << time_max << "musec" << endl;
-		cout << "avg running time : " << time_sum/query_count << "musec" << endl;
+		if(query_count != 0)
+			cout << "avg running time : " << time_sum/query_count << "musec" << endl;
 
 		save_vector(distance_file, distance);
 
-- 
2.43.0


From 82953a9a19a1e8edc8c9cfdff71614b739c477bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:18 +0000
Subject: [PATCH 37/48] fix: run_contraction_hierarchy_query read past the end
 of the target vector if it is shorter than the source vector

---
 src/run_contraction_hierarchy_query.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/run_contraction_hierarchy_query.cpp b/src/run_contraction_hierarchy_query.cpp
index c010dd1..e79ae44 100644
--- a/src/run_contraction_hierarchy_query.cpp
+++ b/src/run_contraction_hierarchy_query.cpp
@@ -42,6 +42,9 @@ int main(int argc, char*argv[]){
 
 		cout << "done" << endl;
 
+		if(source.size() != target.size())
+			throw runtime_error("The source and target vectors must be of the same length.");
+
 		const unsigned query_count = source.size();
 
 		cout << "Loaded " << query_count << " test queries" << endl;
-- 
2.43.0


From 3d71da8d6d2805b783583f518bb822dc023dd41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:18 +0000
Subject: [PATCH 38/48] fix: show_path accepted the node count as source or
 target

---
 src/show_path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/show_path.cpp b/src/show_path.cpp
index 8bc072c..edc6876 100644
--- a/src/show_path.cpp
+++ b/src/show_path.cpp
@@ -36,9 +36,9 @@ int main(int argc, char*argv[]){
 
 		unsigned source, target;
 		while(cin >> source >> target){
-			if(source > ch.node_count())
+			if(source >= ch.node_count())
 				throw runtime_error("Source out of bounds");
-			if(target > ch.node_count())
+			if(target >= ch.node_count())
 				throw runtime_error("Target out of bounds");
 
 			ch_query.reset().add_source(source).add_target(target).run();
-- 
2.43.0


From bd727e7266b57a06e8ae43e65003d5dcc4677e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:08 +0000
Subject: [PATCH 39/48] fix: osm_extract read out of bounds if the extracted
 graph has no arcs

---
 src/osm_extract.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osm_extract.cpp b/src/osm_extract.cpp
index 3a46833..2f7aa56 100644
--- a/src/osm_extract.cpp
+++ b/src/osm_extract.cpp
@@ -100,7 +100,7 @@ int main(int argc, char*argv[]){
 			travel_time[a] /= 5;
 		}
 
-		{
+		if(arc_count != 0){
 			unsigned max_arc = invalid_id;
 			unsigned max_travel_time = 0;
 			for(unsigned a=0; a<arc_count; ++a){
-- 
2.43.0


From 7ffab2bef9ebbe47518569ebb68c0d03ebbdbb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:51 +0000
Subject: [PATCH 40/48] fix: osm_extract computed wrong travel times for arcs
 longer than 238 km because of a 32-bit overflow

---
 src/osm_extract.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/osm_extract.cpp b/src/osm_extract.cpp
index 2f7aa56..ce137af 100644
--- a/src/osm_extract.cpp
+++ b/src/osm_extract.cpp
@@ -95,9 +95,11 @@ int main(int argc, char*argv[]){
 
 		std::vector<uint32_t>travel_time = routing_graph.geo_distance;
 		for(unsigned a=0; a<arc_count; ++a){
-			travel_time[a] *= 18000;
-			travel_time[a] /= way_speed[routing_graph.way[a]];
-			travel_time[a] /= 5;
+			uint64_t t = travel_time[a];
+			t *= 18000;
+			t /= way_speed[routing_graph.way[a]];
+			t /= 5;
+			travel_time[a] = t;
 		}
 
 		if(arc_count != 0){
-- 
2.43.0


From 3d69282b98b564c28c09a513aba790000d1094aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:50 +0000
Subject: [PATCH 41/48] fix: check_contraction_hierarchy_for_errors wrote out
 of bounds if order is not a permutation

---
 src/contraction_hierarchy.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index cc6c2c1..997d3d4 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1191,6 +1191,9 @@ ContractionHierarchy ContractionHierarchy::build_given_order(
 void check_contraction_hierarchy_for_errors(const ContractionHierarchy&ch){
 	unsigned node_count = ch.rank.size();
 
+	if(!is_permutation(ch.order))
+		throw std::runtime_error("CH is invalid because: ch.order is not a permutation");
+
 	if(ch.rank != invert_permutation(ch.order))
 		throw std::runtime_error("CH is invalid because: ch.rank != invert_permutation(ch.order)");
 
-- 
2.43.0


From eb1e42b72ba94f1194002781b62f209cc0e8c328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:34 +0000
Subject: [PATCH 42/48] fix: building a contraction hierarchy of an empty graph
 with a log function read out of bounds

---
 src/contraction_hierarchy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 997d3d4..98ca715 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1073,11 +1073,11 @@ namespace {
 			std::vector<unsigned>deg(node_count, 0);
 			for(unsigned i=0; i<tail.size(); ++i)
 				++deg[tail[i]];
-			unsigned max_out_degree = max_element_of(deg);
+			unsigned max_out_degree = max_element_of(deg, 0u);
 			std::fill(deg.begin(), deg.end(), 0);
 			for(unsigned i=0; i<tail.size(); ++i)
 				++deg[head[i]];
-			unsigned max_in_degree = max_element_of(deg);
+			unsigned max_in_degree = max_element_of(deg, 0u);
 			log_message("The input's maximum in-degree is "+std::to_string(max_in_degree)+" and its maximum out-degree is "+std::to_string(max_out_degree)+".");
 
 		}
-- 
2.43.0


From 588707abe0f8c319e39339d013fdbe445769b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:42 +0000
Subject: [PATCH 43/48] fix: extracting a CH from a filtered CCH threw an
 exception or kept arcs without valid constituents

---
 src/customizable_contraction_hierarchy.cpp | 26 ++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 005646e..c9a8665 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -1823,6 +1823,32 @@ ContractionHierarchy CustomizableContractionHierarchyMetric::build_contraction_h
 		);
 	#endif
 
+	// If the CCH was filtered, then the upper neighbors of a node are not necessarily a clique. The triangles above therefore do
+	// not identify every arc that is longer than a shortest path. Such an arc can consist of two arcs that were identified. It
+	// must be removed with them. An arc that is a shortest path always is an input arc or consists of two arcs that are kept.
+	for(unsigned a=0; a<cch->cch_arc_count(); ++a){
+		if(keep_forward_arc.is_set(a) && unpack_original_forward_arc(*cch, *this, a) == invalid_id){
+			bool was_not_found = forall_lower_triangles_of_arc(
+				*cch, a,
+				[&](unsigned bottom_arc, unsigned mid_arc, unsigned top_arc, unsigned, unsigned, unsigned){
+					return !(keep_backward_arc.is_set(bottom_arc) && keep_forward_arc.is_set(mid_arc) && backward[bottom_arc] + forward[mid_arc] == forward[top_arc]);
+				}
+			);
+			if(was_not_found)
+				keep_forward_arc.reset(a);
+		}
+		if(keep_backward_arc.is_set(a) && unpack_original_backward_arc(*cch, *this, a) == invalid_id){
+			bool was_not_found = forall_lower_triangles_of_arc(
+				*cch, a,
+				[&](unsigned bottom_arc, unsigned mid_arc, unsigned top_arc, unsigned, unsigned, unsigned){
+					return !(keep_backward_arc.is_set(mid_arc) && keep_forward_arc.is_set(bottom_arc) && backward[mid_arc] + forward[bottom_arc] == backward[top_arc]);
+				}
+			);
+			if(was_not_found)
+				keep_backward_arc.reset(a);
+		}
+	}
+
 	ContractionHierarchy ch;
 
 	ch.rank = cch->rank;
-- 
2.43.0


From d17b6ef9aafc8b0f834289189b50765f702e9138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:47 +0000
Subject: [PATCH 44/48] fix: tools read out of bounds if first_out is empty or
 not sorted

---
 src/export_road_dimacs_graph.cpp | 9 +++++++--
 src/randomly_permute_nodes.cpp   | 5 +++++
 src/verify.cpp                   | 2 ++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/export_road_dimacs_graph.cpp b/src/export_road_dimacs_graph.cpp
index 1f13460..e26a5f2 100644
--- a/src/export_road_dimacs_graph.cpp
+++ b/src/export_road_dimacs_graph.cpp
@@ -3,6 +3,7 @@
 #include <routingkit/sort.h>
 #include <routingkit/inverse_vector.h>
 
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 #include <random>
@@ -37,17 +38,20 @@ int main(int argc, char*argv[]){
 		vector<unsigned>first_out = load_vector<unsigned>(in_first_out_file);
 		vector<unsigned>head = load_vector<unsigned>(in_head_file);
 		vector<unsigned>weight = load_vector<unsigned>(in_weight_file);
-		vector<unsigned>tail = invert_inverse_vector(first_out);
-		
+
 		cout << "done" << endl;
 
 		const unsigned node_count = first_out.size()-1;
 		const unsigned arc_count = head.size();
 
+		if(first_out.empty())
+			throw runtime_error("The first out vector must not be empty.");
 		if(first_out.front() != 0)
 			throw runtime_error("The first element of first out must be 0.");
 		if(first_out.back() != arc_count)
 			throw runtime_error("The last element of first out must be the arc count.");
+		if(!is_sorted(first_out.begin(), first_out.end()))
+			throw runtime_error("The first out vector must be sorted.");
 		if(head.empty())
 			throw runtime_error("The head vector must not be empty.");
 		if(max_element_of(head) >= node_count)
@@ -55,6 +59,7 @@ int main(int argc, char*argv[]){
 		if(weight.size() != arc_count)
 			throw runtime_error("The weight vector must be as long as the number of arcs");
 
+		vector<unsigned>tail = invert_inverse_vector(first_out);
 
 		cout << "Saving graph ... " << flush;
 
diff --git a/src/randomly_permute_nodes.cpp b/src/randomly_permute_nodes.cpp
index d0e183c..dab1bdf 100644
--- a/src/randomly_permute_nodes.cpp
+++ b/src/randomly_permute_nodes.cpp
@@ -3,6 +3,7 @@
 #include <routingkit/sort.h>
 #include <routingkit/inverse_vector.h>
 
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 #include <random>
@@ -44,10 +45,14 @@ int main(int argc, char*argv[]){
 		const unsigned node_count = first_out.size()-1;
 		const unsigned arc_count = head.size();
 
+		if(first_out.empty())
+			throw runtime_error("The first out vector must not be empty.");
 		if(first_out.front() != 0)
 			throw runtime_error("The first element of first out must be 0.");
 		if(first_out.back() != arc_count)
 			throw runtime_error("The last element of first out must be the arc count.");
+		if(!is_sorted(first_out.begin(), first_out.end()))
+			throw runtime_error("The first out vector must be sorted.");
 		if(head.empty())
 			throw runtime_error("The head vector must not be empty.");
 		if(max_element_of(head) >= node_count)
diff --git a/src/verify.cpp b/src/verify.cpp
index 413b337..09ba142 100644
--- a/src/verify.cpp
+++ b/src/verify.cpp
@@ -6,6 +6,8 @@
 namespace RoutingKit{
 
 void check_if_graph_is_valid(const std::vector<unsigned>&first_out, const std::vector<unsigned>&head){
+	if(first_out.empty())
+		throw std::runtime_error("first_out must not be empty");
 	if(first_out.front() != 0)
 		throw std::runtime_error("first_out[0] must be 0");
 	if(first_out.back() != head.size())
-- 
2.43.0


From 256d586d09aad4d17a4fd0ee894368fc0fa58b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:47 +0000
Subject: [PATCH 45/48] fix: query tools wrote out of bounds if a query node
 does not exist

---
 src/run_contraction_hierarchy_query.cpp | 6 ++++++
 src/run_dijkstra.cpp                    | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/run_contraction_hierarchy_query.cpp b/src/run_contraction_hierarchy_query.cpp
index e79ae44..b484ac5 100644
--- a/src/run_contraction_hierarchy_query.cpp
+++ b/src/run_contraction_hierarchy_query.cpp
@@ -44,6 +44,12 @@ int main(int argc, char*argv[]){
 
 		if(source.size() != target.size())
 			throw runtime_error("The source and target vectors must be of the same length.");
+		for(auto x:source)
+			if(x >= ch.node_count())
+				throw runtime_error("The source vector contains an out-of-bounds node id.");
+		for(auto x:target)
+			if(x >= ch.node_count())
+				throw runtime_error("The target vector contains an out-of-bounds node id.");
 
 		const unsigned query_count = source.size();
 
diff --git a/src/run_dijkstra.cpp b/src/run_dijkstra.cpp
index 83ebb88..32de499 100644
--- a/src/run_dijkstra.cpp
+++ b/src/run_dijkstra.cpp
@@ -72,7 +72,10 @@ int main(int argc, char*argv[]){
 
 		if(source.size() != target.size())
 			throw runtime_error("The source and target vectors must be of the same length.");
-			
+		if(max_element_of(source, 0u) >= node_count && !source.empty())
+			throw runtime_error("The source vector contains an out-of-bounds node id.");
+		if(max_element_of(target, 0u) >= node_count && !target.empty())
+			throw runtime_error("The target vector contains an out-of-bounds node id.");
 
 		unsigned query_count = source.size();
 
-- 
2.43.0


From 1861ace59477efe3a95e7472b507b4b73aec55c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:47 +0000
Subject: [PATCH 46/48] fix: tools read out of bounds if there are fewer
 coordinates than nodes or if the graph is inconsistent

---
 src/compute_geographic_distance_weights.cpp |  2 ++
 src/compute_nested_dissection_order.cpp     | 19 +++++++++++++++++--
 src/show_path.cpp                           |  3 +++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/compute_geographic_distance_weights.cpp b/src/compute_geographic_distance_weights.cpp
index b137ad9..d139ee0 100644
--- a/src/compute_geographic_distance_weights.cpp
+++ b/src/compute_geographic_distance_weights.cpp
@@ -45,6 +45,8 @@ int main(int argc, char*argv[]){
 
 		cout << "Validity tests ... " << flush;
 		check_if_graph_is_valid(first_out, head);
+		if(latitude.size() != first_out.size()-1 || longitude.size() != first_out.size()-1)
+			throw runtime_error("There must be one latitude and one longitude per node.");
 		cout << "done" << endl;
 
 
diff --git a/src/compute_nested_dissection_order.cpp b/src/compute_nested_dissection_order.cpp
index e82de6f..31d0d34 100644
--- a/src/compute_nested_dissection_order.cpp
+++ b/src/compute_nested_dissection_order.cpp
@@ -3,6 +3,7 @@
 #include <routingkit/nested_dissection.h>
 #include <routingkit/timer.h>
 
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 #include <vector>
@@ -35,14 +36,28 @@ int main(int argc, char*argv[]){
 		cout << "Loading Graph ... " << flush;
 
 		auto first_out = load_vector<unsigned>(first_out_file);
-		unsigned node_count = first_out.size()-1;
-		auto tail = invert_inverse_vector(first_out);
 		auto head = load_vector<unsigned>(head_file);
 		auto latitude = load_vector<float>(latitude_file);
 		auto longitude = load_vector<float>(longitude_file);
 
 		cout << "done" << endl;
 
+		if(first_out.empty())
+			throw runtime_error("The first out vector must not be empty.");
+		if(first_out.front() != 0)
+			throw runtime_error("The first element of first out must be 0.");
+		if(first_out.back() != head.size())
+			throw runtime_error("The last element of first out must be the arc count.");
+		if(!is_sorted(first_out.begin(), first_out.end()))
+			throw runtime_error("The first out vector must be sorted.");
+		if(!head.empty() && *max_element(head.begin(), head.end()) >= first_out.size()-1)
+			throw runtime_error("The head vector contains an out-of-bounds node id.");
+		if(latitude.size() != first_out.size()-1 || longitude.size() != first_out.size()-1)
+			throw runtime_error("There must be one latitude and one longitude per node.");
+
+		unsigned node_count = first_out.size()-1;
+		auto tail = invert_inverse_vector(first_out);
+
 		cout << "Compute order ... " << flush;
 		timer = -get_micro_time();
 		auto cch_order = compute_nested_node_dissection_order_using_inertial_flow(node_count, tail, head, latitude, longitude);
diff --git a/src/show_path.cpp b/src/show_path.cpp
index edc6876..6a0b26b 100644
--- a/src/show_path.cpp
+++ b/src/show_path.cpp
@@ -32,6 +32,9 @@ int main(int argc, char*argv[]){
 		vector<float>latitude = load_vector<float>(latitude_file);
 		vector<float>longitude = load_vector<float>(longitude_file);
 
+		if(latitude.size() != ch.node_count() || longitude.size() != ch.node_count())
+			throw runtime_error("There must be one latitude and one longitude per node.");
+
 		ContractionHierarchyQuery ch_query(ch);		
 
 		unsigned source, target;
-- 
2.43.0


From c6beffd6a1c14797d174fd7043bc324d10d4db97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:47 +0000
Subject: [PATCH 47/48] fix: graph_to_dot and graph_to_svg read out of bounds
 on inconsistent graphs, graph_to_svg wrote nan if all nodes are equally far
 north or east

---
 src/graph_to_dot.cpp | 14 ++++++++++++++
 src/graph_to_svg.cpp | 34 ++++++++++++++++++++++++++--------
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/graph_to_dot.cpp b/src/graph_to_dot.cpp
index 12ff15f..ed2556c 100644
--- a/src/graph_to_dot.cpp
+++ b/src/graph_to_dot.cpp
@@ -2,6 +2,7 @@
 #include <routingkit/timer.h>
 #include <routingkit/contraction_hierarchy.h>
 
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 #include <vector>
@@ -35,6 +36,19 @@ int main(int argc, char*argv[]){
 
 		cout << "done" << endl;
 
+		if(first_out_arc.empty())
+			throw runtime_error("The first out vector must not be empty.");
+		if(first_out_arc.front() != 0)
+			throw runtime_error("The first element of first out must be 0.");
+		if(first_out_arc.back() != head.size())
+			throw runtime_error("The last element of first out must be the arc count.");
+		if(!is_sorted(first_out_arc.begin(), first_out_arc.end()))
+			throw runtime_error("The first out vector must be sorted.");
+		if(!head.empty() && *max_element(head.begin(), head.end()) >= first_out_arc.size()-1)
+			throw runtime_error("The head vector contains an out-of-bounds node id.");
+		if(weight.size() != head.size())
+			throw runtime_error("The weight vector must be as long as the number of arcs.");
+
 		cout << "Writing dot ... " << flush;
 
 		std::ofstream out(dot_file);
diff --git a/src/graph_to_svg.cpp b/src/graph_to_svg.cpp
index 1fc6480..d1788a2 100644
--- a/src/graph_to_svg.cpp
+++ b/src/graph_to_svg.cpp
@@ -3,6 +3,7 @@
 #include <routingkit/contraction_hierarchy.h>
 #include <routingkit/min_max.h>
 
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 #include <vector>
@@ -39,22 +40,39 @@ int main(int argc, char*argv[]){
 		
 		cout << "done" << endl;
 
-		float min_latitude = min_element_of(latitude);
-		float max_latitude = max_element_of(latitude);
+		if(first_out_arc.empty())
+			throw runtime_error("The first out vector must not be empty.");
+		if(first_out_arc.front() != 0)
+			throw runtime_error("The first element of first out must be 0.");
+		if(first_out_arc.back() != head.size())
+			throw runtime_error("The last element of first out must be the arc count.");
+		if(!is_sorted(first_out_arc.begin(), first_out_arc.end()))
+			throw runtime_error("The first out vector must be sorted.");
+		if(!head.empty() && *max_element(head.begin(), head.end()) >= first_out_arc.size()-1)
+			throw runtime_error("The head vector contains an out-of-bounds node id.");
+		if(latitude.size() != first_out_arc.size()-1 || longitude.size() != first_out_arc.size()-1)
+			throw runtime_error("There must be one latitude and one longitude per node.");
+
+		float min_latitude = min_element_of(latitude, 0.0f);
+		float max_latitude = max_element_of(latitude, 0.0f);
 		
 		for(auto&x:latitude){
 			x -= min_latitude;
-			x *= 300;
-			x /= (max_latitude - min_latitude);
+			if(max_latitude != min_latitude){
+				x *= 300;
+				x /= (max_latitude - min_latitude);
+			}
 		}
 
-		float min_longitude = min_element_of(longitude);
-		float max_longitude = max_element_of(longitude);
+		float min_longitude = min_element_of(longitude, 0.0f);
+		float max_longitude = max_element_of(longitude, 0.0f);
 
 		for(auto&x:longitude){
 			x -= min_longitude;
-			x *= 300;
-			x /= (max_longitude - min_longitude);
+			if(max_longitude != min_longitude){
+				x *= 300;
+				x /= (max_longitude - min_longitude);
+			}
 		}
 
 		cout << "Writing SVG ... " << flush;
-- 
2.43.0


From a22986b230f11e7c0970a19dc51488f56374a333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:47 +0000
Subject: [PATCH 48/48] fix: query generators made up nodes of empty graphs,
 times of empty periods and read too short weight vectors out of bounds

---
 src/generate_dijkstra_rank_test_queries.cpp | 4 ++++
 src/generate_random_node_list.cpp           | 3 +++
 src/generate_random_source_times.cpp        | 3 +++
 src/generate_test_queries.cpp               | 3 +++
 4 files changed, 13 insertions(+)

diff --git a/src/generate_dijkstra_rank_test_queries.cpp b/src/generate_dijkstra_rank_test_queries.cpp
index 5af385f..abddff6 100644
--- a/src/generate_dijkstra_rank_test_queries.cpp
+++ b/src/generate_dijkstra_rank_test_queries.cpp
@@ -49,6 +49,10 @@ int main(int argc, char*argv[]){
 
 		cout << "Validity tests ... " << flush;
 		check_if_graph_is_valid(first_out, head);
+		if(weight.size() != head.size())
+			throw runtime_error("The weight vector must be as long as the number of arcs");
+		if(first_out.size() == 1 && source_node_count != 0)
+			throw runtime_error("The graph has no nodes");
 		cout << "done" << endl;
 
 		auto tail = invert_inverse_vector(first_out);
diff --git a/src/generate_random_node_list.cpp b/src/generate_random_node_list.cpp
index 06673c9..00fbfcb 100644
--- a/src/generate_random_node_list.cpp
+++ b/src/generate_random_node_list.cpp
@@ -34,6 +34,9 @@ int main(int argc, char*argv[]){
 
 		cout << "Generating ... " << flush;
 
+		if(node_count == 0 && query_count != 0)
+			throw runtime_error("There must be at least one node");
+
 		default_random_engine gen(random_seed);
 		uniform_int_distribution<int> dist(0, node_count-1);
 		vector<unsigned>v(query_count);
diff --git a/src/generate_random_source_times.cpp b/src/generate_random_source_times.cpp
index a65e009..3beb9c7 100644
--- a/src/generate_random_source_times.cpp
+++ b/src/generate_random_source_times.cpp
@@ -34,6 +34,9 @@ int main(int argc, char*argv[]){
 
 		cout << "Generating ... " << flush;
 
+		if(period == 0 && time_count != 0)
+			throw runtime_error("The period must not be 0");
+
 		default_random_engine gen(random_seed);
 		uniform_int_distribution<int> dist(0, period-1);
 		vector<unsigned>source_time(time_count);
diff --git a/src/generate_test_queries.cpp b/src/generate_test_queries.cpp
index 8883798..a682723 100644
--- a/src/generate_test_queries.cpp
+++ b/src/generate_test_queries.cpp
@@ -34,6 +34,9 @@ int main(int argc, char*argv[]){
 		cout << "Generating test queries ... " << flush;
 
 		std::default_random_engine gen(random_seed);
+		if(node_count == 0 && query_count != 0)
+			throw runtime_error("There must be at least one node");
+
 		std::uniform_int_distribution<int> dist(0, node_count-1);
 
 		for(unsigned i=0; i<query_count; ++i){
-- 
2.43.0

