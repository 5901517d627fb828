From 054e2e00fff509944ae0ed548d2304d714c6a3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:29 +0000
Subject: [PATCH 01/44] fix: CuckooFilter starts and clears to empty_value, not
 to 0

---
 src/cuckoo_filter.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cuckoo_filter.hpp b/src/cuckoo_filter.hpp
index fc6f279..aac608e 100644
--- a/src/cuckoo_filter.hpp
+++ b/src/cuckoo_filter.hpp
@@ -148,6 +148,7 @@ class CuckooFilter{
 	 * Basic constructor.
 	 */
 	CuckooFilter(){
+		clear();
 	}
 	/**
 	 * Add a new element to the filter.
@@ -240,7 +241,8 @@ class CuckooFilter{
 	 * Empty the filter.
 	 */
 	void clear(void){
-		for(unsigned char& byte : filter)
-			byte = 0;
+		for(int i = 0; i < bucket_count; ++i)
+			for(int j = 0; j < bucket_size; ++j)
+				set_entry(i, j, empty_value);
 	}
 };
-- 
2.43.0


From c029c18448515f9a15509e07ae61e2bb0a05851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:29 +0000
Subject: [PATCH 02/44] fix: ReservoirSampling stays inside the sample when
 random() returns 1

---
 src/reservoir_sampling.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reservoir_sampling.hpp b/src/reservoir_sampling.hpp
index f7cc7b1..b749674 100644
--- a/src/reservoir_sampling.hpp
+++ b/src/reservoir_sampling.hpp
@@ -67,6 +67,9 @@ class ReservoirSampling : public Reservoir<element_type, sample_size>{
 			double const rnd = func::random();
 			if(rnd < threshold)
 				idx = func::floor(func::random() * static_cast<double>(sample_size));
+			//The random function may return 1
+			if(idx >= static_cast<int>(sample_size))
+				idx = sample_size - 1;
 		}
 		counter += 1;
 		return idx;
-- 
2.43.0


From 58464744281a2200ae06281baa292f847b5b6569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:29 +0000
Subject: [PATCH 03/44] fix: ExponentialReservoirSampling stays inside the
 sample when random() returns 1

---
 src/reservoir_sampling.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reservoir_sampling.hpp b/src/reservoir_sampling.hpp
index b749674..dafc1d7 100644
--- a/src/reservoir_sampling.hpp
+++ b/src/reservoir_sampling.hpp
@@ -116,10 +116,13 @@ class ExponentialReservoirSampling : public Reservoir<element_type, sample_size>
 		double const filling_ratio = static_cast<double>(counter)/static_cast<double>(sample_size);
 		double const remove_element = func::random();
 		int index;
-		if(remove_element < filling_ratio){
+		//The random function may return 1 so a full reservoir must be checked explicitly
+		if(remove_element < filling_ratio || counter >= sample_size){
 			double const rdn = func::random();
 			//NOTE: index range from [0, counter[.
 			index = func::floor(rdn * static_cast<double>(counter));
+			if(index >= static_cast<int>(counter))
+				index = counter - 1;
 		}
 		else{
 			index = counter;
-- 
2.43.0


From 8e87381fbea3f0c798dd36220a28ed009a49f6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:29 +0000
Subject: [PATCH 04/44] fix: ChainedReservoirSampling keeps the rest of a chain
 when its head is discarded

---
 src/chained_reservoir.hpp | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 3a0224b..a23eeb6 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -84,22 +84,17 @@ class ChainedReservoirSampling{
 	 * @param current the node that should replace head.
 	 */
 	void shift_chain(node& head, node& current){//TODO improve this to avoid overwriting elements
-		node& receiver = head;
-		node& mover = current;
-		while(1){//TODO add security
-			receiver.element = mover.element;
-			receiver.timestamp = mover.timestamp;
-			if(mover.next != NULL){
-				mover = *mover.next;
-				receiver = *receiver.next;
-			}
-			else
-				break;
+		node* receiver = &head;
+		//receiver is always before mover in the list, so it cannot be NULL
+		for(node* mover = &current; mover != NULL; mover = mover->next){
+			receiver->element = mover->element;
+			receiver->timestamp = mover->timestamp;
+			receiver = receiver->next;
 		}
 		//Once everything is shifted, disable all following cells
-		while(receiver.next != NULL){
-			receiver = *receiver.next;
-			receiver.timestamp = 0;
+		while(receiver != NULL){
+			receiver->timestamp = 0;
+			receiver = receiver->next;
 		}
 	}
 	public:
-- 
2.43.0


From e90fdbc6c6c3dbe1ed092a44f62acfd6659857e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:29 +0000
Subject: [PATCH 05/44] fix: ChainedReservoirSampling::obsolete includes the
 given timestamp

---
 src/chained_reservoir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index a23eeb6..127cb0e 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -165,7 +165,7 @@ class ChainedReservoirSampling{
 			node* current = &head;
 			bool do_shift = true;
 
-			while(current->timestamp < timestamp){
+			while(current->timestamp <= timestamp){
 				if(current->next == NULL){
 					do_shift = false;
 					break;
-- 
2.43.0


From f96d3a2e1607e35bc03d489bcc5dfee9dba59776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:29 +0000
Subject: [PATCH 06/44] fix: ChainedReservoirSampling samples uniformly

---
 src/chained_reservoir.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 127cb0e..8652788 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -29,11 +29,11 @@ class ChainedReservoirSampling{
 	unsigned int counter = 0;
 
 	/**
-	 * Round d to the closest integer
-	 * @param d the double to round
+	 * Uniformly pick an index between 0 and sample_size-1.
 	 */
-	double round(double const d) {
-		  return (double)((int)(d + 0.5));
+	unsigned int random_index(void) {
+		unsigned int const index = static_cast<unsigned int>(funct::random() * sample_size);
+		return index < sample_size ? index : sample_size - 1; //The random function may return 1
 	}
 	/**
 	 * Function to reset a chain when it is replaced. This is a recursive function.
@@ -119,24 +119,25 @@ class ChainedReservoirSampling{
 			sample[counter].element = e;
 			sample[counter].timestamp = timestamp;
 			sample[counter].next = NULL;
-			next[counter] = counter + 1 + round(funct::random() * (sample_size-1));
+			next[counter] = counter + 1 + random_index();
 		}
 		else{
-			double const threshold = (double)sample_size / (double)counter;
+			//We use counter+1 because the current item is not counted in counter yet
+			double const threshold = (double)sample_size / ((double)counter + 1);
 			double const rnd = funct::random();
 			if(rnd < threshold){
-				int const index = round(funct::random() * (sample_size-1));
+				int const index = random_index();
 				sample[index].element = e;
 				sample[index].timestamp = timestamp;
 				clear_chain(sample[index].next); //NOTE we do not free the memory here, but it might be interesting to think about it
-				next[index] = counter + 1 + round(funct::random() * (sample_size-1));
+				next[index] = counter + 1 + random_index();
 			}
 		}
 		//check `next`
 		for(int i = 0; i < sample_size; ++i){
 			if(counter == next[i]){
 				push_on_chain(sample[i], e, timestamp);
-				next[i] = counter + 1 + round(funct::random() * (sample_size-1));
+				next[i] = counter + 1 + random_index();
 			}
 		}
 		counter += 1;
-- 
2.43.0


From 3c4131b487f9c6717f2ed8dce58b4efc08d01611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:29 +0000
Subject: [PATCH 07/44] fix: LTC transmits the timestamp of the previous data
 point

---
 src/ltc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 8022fe4..8054e80 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -120,7 +120,7 @@ class LTC{
 			to_transmit = last_transmit_point;
 			//Update the last_transmit_point
 			element_type tmp_param = (UL.value + LL.value) / 2;
-			last_transmit_point.timestamp = timestamp - 1;
+			last_transmit_point.timestamp = UL.timestamp; //timestamp of the previous data point
 			last_transmit_point.value = tmp_param;
 			counter = 1;
 			add(timestamp, value);
-- 
2.43.0


From d7588f70cb1b0c6b2b94b248e226aab43493544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:29 +0000
Subject: [PATCH 08/44] fix: LTC extends its limits with the unit used for the
 slopes

---
 src/ltc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 8054e80..26fb8e5 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -69,11 +69,11 @@ class LTC{
 			return true;
 
 		if(old_up_deriva < new_up_deriva) {
-			new_ul.value = (new_ul.timestamp - UL.timestamp) / time_unit_difference * old_up_deriva + UL.value;
+			new_ul.value = (new_ul.timestamp - UL.timestamp) * time_unit_difference * old_up_deriva + UL.value;
 		}
 
 		if(old_low_deriva > new_low_deriva) {
-			new_ll.value = (new_ll.timestamp - LL.timestamp) / time_unit_difference * old_low_deriva + LL.value;
+			new_ll.value = (new_ll.timestamp - LL.timestamp) * time_unit_difference * old_low_deriva + LL.value;
 		}
 		return false;
 	}
-- 
2.43.0


From fbf6f3c9a1903c9b9207bbe103e7d2a2e2f9eb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 09/44] fix: LTC keeps its limits in floating point for every
 element_type

---
 src/ltc.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 26fb8e5..c0f519a 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -16,7 +16,15 @@ class LTC{
 		timestamp_type timestamp;
 		element_type value;
 	};
-	data_point last_transmit_point, UL, LL, new_ul, new_ll, to_transmit;
+	/*
+	 * Internal structure to describe a limit. The value is a double because rounding a limit to element_type would break the epsilon margin.
+	 */
+	struct limit{
+		timestamp_type timestamp;
+		double value;
+	};
+	data_point last_transmit_point, to_transmit;
+	limit UL, LL, new_ul, new_ll;
 
 	int counter = 0; //Counter make sure the algorithm does not fail for the first 3 values
 
@@ -52,9 +60,9 @@ class LTC{
 	 */
 	void update(timestamp_type const timestamp, element_type const value){
 		new_ul.timestamp = timestamp;
-		new_ul.value = min(value + epsilon, max_value);
+		new_ul.value = min<double>(static_cast<double>(value) + epsilon, max_value);
 		new_ll.timestamp = timestamp;
-		new_ll.value = max(value - epsilon, min_value);
+		new_ll.value = max<double>(static_cast<double>(value) - epsilon, min_value);
 	}
 	/*
 	 * Compute the need to transmit the compress data point.
-- 
2.43.0


From 30e82875ef32cba2c3dad8de53975bc0b7cd78ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 10/44] fix: MCNN finds the nearest cluster at any distance

---
 src/mc_nn.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index beec111..ebfc125 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -221,7 +221,7 @@ class MCNN{
 		//Otherwise, we have to found it.
 		feature_type centroid[feature_count];
 		int nearest_cluster = -1;
-		double shortest_distance = 1000000;
+		double shortest_distance = -1;
 		for(int cluster_idx = 0; cluster_idx < max_cluster; ++cluster_idx){
 			//Only check the distance with the cluster with the same label.
 			if(!active[cluster_idx] || clusters[cluster_idx].label != label)
@@ -229,7 +229,7 @@ class MCNN{
 			//NOTE: finding both the nearest and the nearest with class could be done in one pass, but I choose to use 2 different functions to make it clearer.
 			clusters[cluster_idx].centroid(centroid);
 			double const distance = euclidean_distance(features, centroid);
-			if(distance < shortest_distance){
+			if(nearest_cluster < 0 || distance < shortest_distance){
 				nearest_cluster = cluster_idx;
 				shortest_distance = distance;
 			}
@@ -249,7 +249,7 @@ class MCNN{
 	void find_nearest_clusters(feature_type const* features, int& nearest, double* shortest = nullptr) const{
 		feature_type centroid[feature_count];
 		int nearest_cluster = -1;
-		double shortest_distance = 1000000;
+		double shortest_distance = -1;
 		//Loop over the clusters
 		for(int cluster_idx = 0; cluster_idx < max_cluster; ++cluster_idx){
 			//If the cluster is empty, skip it
@@ -259,7 +259,7 @@ class MCNN{
 			clusters[cluster_idx].centroid(centroid);
 			//Compute the squared euclidean distance
 			double const distance = euclidean_distance(features, centroid);
-			if(distance < shortest_distance){
+			if(nearest_cluster < 0 || distance < shortest_distance){
 				nearest_cluster = cluster_idx;
 				shortest_distance = distance;
 			}
-- 
2.43.0


From 1b05187fd72565aa93291b350272e0bded8f4f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 11/44] fix: MCNN counts its active clusters when one is
 replaced or removed

---
 src/mc_nn.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index ebfc125..628d9f4 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -187,8 +187,10 @@ class MCNN{
 
 		clusters[new_idx].initialize(cluster_minus, clusters[cluster_idx].label, old_time, error_thr);
 		clusters[cluster_idx].initialize(cluster_plus, clusters[cluster_idx].label, old_time, error_thr);
+		//The new cluster may replace an active one
+		if(!active[new_idx])
+			count_active_cluster += 1;
 		active[new_idx] = true;
-		count_active_cluster += 1;
 	}
 	/**
 	 * Compute the squared distance between two data point.
@@ -281,8 +283,10 @@ class MCNN{
 	 */
 	void clean_low_performance_clusters(void){
 		for(int i = 0; i < max_cluster; ++i)
-			if(active[i] == true && clusters[i].data_count > 1 && clusters[i].performance(timestamp) < performance_thr)
+			if(active[i] == true && clusters[i].data_count > 1 && clusters[i].performance(timestamp) < performance_thr){
 				active[i] = false;
+				count_active_cluster -= 1;
+			}
 	}
 	public:
 	/**
-- 
2.43.0


From 546eea3cd229e5ab3d88569fb041085297c54e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 12/44] fix: MCNN splits around the centroid for signed integer
 features

---
 src/mc_nn.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index 628d9f4..d8079b8 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -175,7 +175,7 @@ class MCNN{
 		//Create two separate feature data points based on the centroid of the original cluster
 		feature_type cluster_minus[feature_count], cluster_plus[feature_count];
 		for(int i = 0; i < feature_count; ++i){
-			cluster_minus[i] = cluster_plus[i] = clusters[cluster_idx].features_sum[i] / clusters[cluster_idx].data_count;
+			cluster_minus[i] = cluster_plus[i] = (double)clusters[cluster_idx].features_sum[i] / (double)clusters[cluster_idx].data_count;
 		}
 
 		//Update the spliting attribut
-- 
2.43.0


From ae067151575a4a7468a62631777ac8920cb5c28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 13/44] fix: MCNN does not split with the square root of a
 negative variance

---
 src/mc_nn.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index d8079b8..9e04dc6 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -171,7 +171,8 @@ class MCNN{
 				split_index = i;
 			}
 		}
-		highest_variance = sqrt_local(highest_variance);
+		//Rounding errors may turn a variance of zero into a negative one
+		highest_variance = highest_variance > 0 ? sqrt_local(highest_variance) : 0;
 		//Create two separate feature data points based on the centroid of the original cluster
 		feature_type cluster_minus[feature_count], cluster_plus[feature_count];
 		for(int i = 0; i < feature_count; ++i){
-- 
2.43.0


From e9da74d0ce051017baadcfe843a53d0dad9b3812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:04 +0000
Subject: [PATCH 14/44] fix: MultiLayerPerceptron::backpropagate does not read
 the size of layer -1

---
 src/perceptron.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/perceptron.hpp b/src/perceptron.hpp
index 1b20ed4..1bbe684 100644
--- a/src/perceptron.hpp
+++ b/src/perceptron.hpp
@@ -151,7 +151,6 @@ class MultiLayerPerceptron{
 		 */
 		double backpropagate(double const* expected){
 			int output_base = get_output_base(layer_count-1);
-			int weight_base = get_weight_base(layer_count-1);
 
 			double sum_error_output = 0;
 			//Set the error of the last layer
@@ -165,7 +164,7 @@ class MultiLayerPerceptron{
 
 			for(int layer_idx = layer_count - 2; layer_idx >= 0; --layer_idx){
 				output_base -= layer_size[layer_idx];
-				weight_base -= (layer_size[layer_idx-1]+1) * layer_size[layer_idx];
+				int const weight_base = get_weight_base(layer_idx+1); //The weights between this layer and the next one
 				for(int neuron_idx = 0; neuron_idx <= layer_size[layer_idx]; ++neuron_idx){
 					double neuron_error = 0;
 					double current_neuron_output = 1;
@@ -174,7 +173,7 @@ class MultiLayerPerceptron{
 					for(int weight_idx = 0; weight_idx < layer_size[layer_idx+1]; ++weight_idx){
 
 						int neuron_next_layer = output_base + layer_size[layer_idx] + weight_idx;
-						int weight_next_layer = weight_base + (layer_size[layer_idx-1]+1) * layer_size[layer_idx] + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
+						int weight_next_layer = weight_base + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
 						neuron_error += neuron_output[neuron_next_layer] * weights[weight_next_layer];
 					}
 					neuron_error *= func::derivative(current_neuron_output);
@@ -183,7 +182,7 @@ class MultiLayerPerceptron{
 					for(int weight_idx = 0; weight_idx < layer_size[layer_idx+1]; ++weight_idx){
 
 						int neuron_next_layer = output_base + layer_size[layer_idx] + weight_idx;
-						int weight_next_layer = weight_base + (layer_size[layer_idx-1]+1) * layer_size[layer_idx] + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
+						int weight_next_layer = weight_base + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
 						double d_weight = - learning_rate * current_neuron_output * neuron_output[neuron_next_layer];
 						weights[weight_next_layer] += d_weight;
 					}
-- 
2.43.0


From 958f1e10d1624ca3e0fcc2cfab113f9c44d92e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:04 +0000
Subject: [PATCH 15/44] fix: HoeffdingTree gives each leaf its own counters and
 detects when its memory is full

---
 src/hoeffding_tree.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index e6ac27d..d8bc843 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -1,3 +1,4 @@
+#include <cassert>
 /**
  * Implement the Hoeffding Tree algorithm.
  * - feature_type: the type of the feature (int, double, float, short, ...).
@@ -48,8 +49,8 @@ class HoeffdingTree{
 			// find the index for the counters :>
 			// NOTE: in the new operator, we made sure that there was space for the node and its counters.
 			int const total_size_counters = compute_total_size_counters(tree->sum_feature_size);
-			int const tmp_preset = tree->buffer_preset - total_size_counters;
-			this->split_feature = - ((max_size - tmp_preset) / total_size_counters); //we need negative number because counters are store on the other side of buffer
+			tree->buffer_preset -= total_size_counters;
+			this->split_feature = - ((max_size - tree->buffer_preset) / total_size_counters); //we need negative number because counters are store on the other side of buffer
 			reset_counters();
 			double const infinity = std::numeric_limits<float>::infinity();
 			for(int i = 0; i < feature_count; ++i){
@@ -124,11 +125,13 @@ class HoeffdingTree{
 		 * @param value The value to use for the split.
 		 */
 		int split(int const feature, double const value){
+			//Two nodes are needed but only *child_right* needs new counters
+			int const counters_size = compute_total_size_counters();
+			if(tree->buffer_offset + 2 * static_cast<int>(sizeof(Node)) > tree->buffer_preset - counters_size) // No more node available
+				return -1;
 			Node* child_right = new (*tree) Node(*tree);
 			//NOTE: child_left has been created re-using counters and bounds from current node
 			Node* child_left = new (*tree) Node(*this); 
-			if(child_left == nullptr || child_right == nullptr) // No more node available
-				return -1;
 			//This operation return the index of child_left since the cell size of the pointer is sizeof Node
 			children[0] = child_left - reinterpret_cast<Node*>(tree->buffer); 
 			children[1] = child_right - reinterpret_cast<Node*>(tree->buffer);
@@ -322,15 +325,11 @@ class HoeffdingTree{
 		}
 		/**
 		 * Overload of new operator. Return a pointer located in *tree.buffer* assuming there is enough space.
-		 * Otherwise, it returns nullptr.
 		 * @param size The size to allocate (a must have for any new operator overload).
 		 * @param tree An additional parameter that indicates the tree of the node.
 		 */
 		void* operator new(size_t const size, HoeffdingTree& tree){
-			int const tmp_offset = tree.buffer_offset + size;
-			int const tmp_preset = tree.buffer_preset - compute_total_size_counters(tree.sum_feature_size);
-			if(tmp_offset > tmp_preset)
-				return nullptr;
+			assert(tree.buffer_offset + static_cast<int>(size) <= tree.buffer_preset);
 			auto ret = tree.buffer+tree.buffer_offset;
 			tree.buffer_offset += size;
 			return ret;
-- 
2.43.0


From 3336c596e0874153a7f819bcb452641be11b52f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:04 +0000
Subject: [PATCH 16/44] fix: HoeffdingTree does not train the children of a
 leaf that failed to split

---
 src/hoeffding_tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index d8bc843..104f28a 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -501,12 +501,13 @@ class HoeffdingTree{
 		int const result = leaf->train(features, label, split_value);
 		if(result >= 0){
 			int const split_result = leaf->split(result, split_value);
+			if(split_result != 0) //No more memory: the leaf stays as it is
+				return false;
 			//NOTE: it is very unlikely the node will split, so we don't check
 			if(features[result] <= split_value)
 				leaf->get_left_child()->train(features, label, split_value);
 			else
 				leaf->get_right_child()->train(features, label, split_value);
-			return (split_result == 0);
 		}
 		return true;
 	}
-- 
2.43.0


From d52c34db18dadc19f7b95462107b9c357370c9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:04 +0000
Subject: [PATCH 17/44] fix: HoeffdingTree splits on the feature of the best
 limit

---
 src/hoeffding_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 104f28a..672b8b2 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -235,11 +235,11 @@ class HoeffdingTree{
 			if(square_diff > epsilon && info_gain[best_split[0]] > 0){
 				split_value = limits[best_split[0]];
 				//Try to retrieve the feature concerned :>
-				int tmp_c = tree->features_size[0];
+				int tmp_c = tree->features_size[0] - 1; //There is one limit less than there is bins
 				for(int f = 0; f < feature_count-1; ++f){
 					if(best_split[0] < tmp_c)
 						return f;
-					tmp_c += tree->features_size[f+1];
+					tmp_c += tree->features_size[f+1] - 1;
 				}
 				//If the feature is not found, it must be the last one
 				return feature_count-1;
-- 
2.43.0


From 03230f22b0287ae44cc4b3f2484f609fc3a42729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:04 +0000
Subject: [PATCH 18/44] fix: HoeffdingTree nodes start with an empty box so
 that children get finite limits

---
 src/hoeffding_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 672b8b2..2fc2e71 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -54,8 +54,8 @@ class HoeffdingTree{
 			reset_counters();
 			double const infinity = std::numeric_limits<float>::infinity();
 			for(int i = 0; i < feature_count; ++i){
-				l_box[i] = -infinity;
-				u_box[i] =  infinity;
+				l_box[i] =  infinity;
+				u_box[i] = -infinity;
 			}
 			int* count;
 			double* limits;
-- 
2.43.0


From 7a0230c2af105b2bcd91ce2cae5025beacf4c34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 19/44] fix: HoeffdingTree handles a node with a single
 possible split

---
 src/hoeffding_tree.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 2fc2e71..cfb7e28 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -209,9 +209,12 @@ class HoeffdingTree{
 				info_gain[i] = info_sum[i] / d_count;
 			}
 
+			int const split_count = tree->sum_feature_size-feature_count;
+			if(split_count < 1)
+				return -1;
 			//Look for the two best split.
 			//*best_split* contains indexes.
-			int best_split[2] = {0, 1};
+			int best_split[2] = {0, split_count > 1 ? 1 : 0};
 			//The information gain of best_split[0] is always greater than best_split[1]
 			//So we may need to switch it
 			if(info_gain[best_split[0]] < info_gain[best_split[1]]){
@@ -230,7 +233,8 @@ class HoeffdingTree{
 			}
 			//compute Hoeffding bound
 			double const epsilon = 4 * func::log(1/tree->delta) / (2*d_count);
-			double const diff = (info_gain[best_split[0]] - info_gain[best_split[1]]);
+			//When there is only one possible split, it is compared with not splitting, which has no gain
+			double const diff = info_gain[best_split[0]] - (split_count > 1 ? info_gain[best_split[1]] : 0);
 			double const square_diff = diff * diff;
 			if(square_diff > epsilon && info_gain[best_split[0]] > 0){
 				split_value = limits[best_split[0]];
-- 
2.43.0


From e4ba17becda80a5017d9853a39eb70ff62d6e578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 20/44] fix: HoeffdingTree counts a value equal to a limit on
 the side it is sorted in

---
 src/hoeffding_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index cfb7e28..3b29898 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -188,7 +188,7 @@ class HoeffdingTree{
 				//Look for the bin
 				for(int lim_index = 0; lim_index < (tree->features_size[f]-1); ++lim_index){ //There is one limit less than there  is bins
 					//NOTE the limits are supposed to be sorted
-					if(features[f] < limits[tmp_feature_sum+lim_index-f]){
+					if(features[f] <= limits[tmp_feature_sum+lim_index-f]){ //Same side as in sort_in_leaf
 						label_counters[tmp_feature_sum + lim_index] += 1;
 						limit_found = true;
 						break;
-- 
2.43.0


From e29c91fd039b3d88b1d37610efed7edcab6f2d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 21/44] fix: pick_from_distribution never picks an index with
 no probability nor an index out of the array

---
 src/utils.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utils.hpp b/src/utils.hpp
index f86478a..3409c59 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -14,10 +14,15 @@ class Utils{
 		double const u = func::rand_uniform(); //Sample a random number between [0,1[
 		//NOTE improve with a log search :]
 		for(int i = 0; i < size; ++i){
-			if(u <= probabilities[i])
+			if(u < probabilities[i])
 				return i;
 		}
-		return size;//NOTE: this should never happen unless the last element of *probabilities* is less than 1
+		//Rounding errors may leave the last element of *probabilities* slightly below 1: return the last index that has a chance of being picked
+		for(int i = size-1; i > 0; --i){
+			if(probabilities[i] > probabilities[i-1])
+				return i;
+		}
+		return 0;
 	}
 	/**
 	 * Turn an array of values into a sum of probabilities according to these values.
-- 
2.43.0


From daec7cb38817ccf00c733c27f974cf79f1f29822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 22/44] fix: shuffle can produce every permutation

---
 src/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.hpp b/src/utils.hpp
index 3409c59..c963fac 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -88,7 +88,7 @@ class Utils{
 	inline static void shuffle(T* array, int const size){
 		for(int i = size-1; i > 0; --i){
 			T tmp = array[i];
-			int swap_idx = static_cast<int>(func::rand_uniform()*static_cast<double>(i));
+			int swap_idx = static_cast<int>(func::rand_uniform()*static_cast<double>(i+1));
 			array[i] = array[swap_idx];
 			array[swap_idx] = tmp;
 		}
-- 
2.43.0


From c7751e9bd1cc833b18865a0b3e46926986b2d88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 23/44] fix: the Mondrian headers can be included together

---
 src/metrics.hpp | 1 +
 src/utils.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/metrics.hpp b/src/metrics.hpp
index 78ba46e..2793f67 100644
--- a/src/metrics.hpp
+++ b/src/metrics.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#pragma once
 template<bool use_ratio=false>
 class ErrorMetrics{
 	int count = 0;
diff --git a/src/utils.hpp b/src/utils.hpp
index c963fac..c397458 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -1,3 +1,4 @@
+#pragma once
 class Utils{
 	public:
 	/**
-- 
2.43.0


From 74bf2de5769b8483e2e0eef76ea066d757afbd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 24/44] fix: Mondrian forests return an initialized value from
 train

---
 src/mondrian.hpp         | 2 +-
 src/mondrian_unbound.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 0801153..b4ac7c3 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -447,7 +447,7 @@ class MondrianForest{
 	 * @param label The label of the data point.
 	 */
 	bool train(feature_type const* features, int const label){
-		bool fully_trained;
+		bool fully_trained = true;
 		for(int i = 0; i < tree_count; ++i){
 			bool has_trained = train_tree(features, label, i);
 			if(!has_trained)
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index c00bc5b..c50507d 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -458,7 +458,7 @@ class MondrianForestUnbound{
 	 * @param label The label of the data point.
 	 */
 	bool train(feature_type const* features, int const label){
-		bool fully_trained;
+		bool fully_trained = true;
 		for(int i = 0; i < tree_count; ++i){
 			bool has_trained = train_tree(features, label, i);
 			if(!has_trained)
-- 
2.43.0


From 0cfb15ddeba2a96751001d08cf03c080acfaba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 25/44] fix: Mondrian forests fill the scores given to predict

---
 src/mondrian.hpp         | 4 ++++
 src/mondrian_coarse.hpp  | 4 ++++
 src/mondrian_unbound.hpp | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index b4ac7c3..b2c2960 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -485,6 +485,10 @@ class MondrianForest{
 			if(sum_posterior_mean[i] > sum_posterior_mean[best])
 				best = i;
 		}
+		//If *scores* is not null, then the function will also return the scores it found for each label.
+		if(scores != nullptr)
+			for(int i = 0; i < label_count; ++i)
+				scores[i] = sum_posterior_mean[i];
 		return best;
 	}
 };
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index d99ef14..72bf4ab 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -3287,6 +3287,10 @@ int predict(feature_type const* features, double* scores = nullptr, int tree_to_
 	for(int k = 0; k < label_count; ++k)
 		sum_posterior_mean[k] /= tree_used;
 
+	//If *scores* is not null, then the function will also return the scores it found for each label.
+	if(scores != nullptr)
+		for(int k = 0; k < label_count; ++k)
+			scores[k] = sum_posterior_mean[k];
 	//Finally, we look for the best label
 	return Utils::index_max(sum_posterior_mean, label_count);
 }
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index c50507d..ceb3de0 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -494,6 +494,10 @@ class MondrianForestUnbound{
 			if(sum_posterior_mean[i] > sum_posterior_mean[best])
 				best = i;
 		}
+		//If *scores* is not null, then the function will also return the scores it found for each label.
+		if(scores != nullptr)
+			for(int i = 0; i < label_count; ++i)
+				scores[i] = sum_posterior_mean[i];
 		return best;
 	}
 	~MondrianForestUnbound(){
-- 
2.43.0


From 6c2628ca83f60dde246d501d1f02456aafc5cce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 26/44] fix: MondrianForest handles having no node left for a
 root or a sibling

---
 src/mondrian.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index b2c2960..08a0d74 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -216,6 +216,8 @@ class MondrianForest{
 					sample_block(new_sibling, features, label);
 				}
 				else{
+					nodes[new_parent].split_dimension = EMPTY_NODE;
+					nodes[new_parent].tau = EMPTY_NODE; //Give the node back
 					update_box = true;
 				}
 			}
@@ -281,6 +283,8 @@ class MondrianForest{
 		if (root_id == EMPTY_NODE){ //The root of the tree does not exist yet
 			//Pick a new node
 			root_id = available_node();
+			if(root_id < 0) //There is no more memory
+				return false;
 
 			//Initialize this node as the root for this tree
 			roots[tree_id] = root_id;
-- 
2.43.0


From 16e8c592fbed8658b504f30487d704cc75514c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 27/44] fix: Mondrian posterior means are distributions:
 discount decreases with time and applies to every label

---
 src/mondrian.hpp         | 17 +++++++++--------
 src/mondrian_coarse.hpp  | 17 +++++++++--------
 src/mondrian_unbound.hpp | 20 ++++++++++----------
 3 files changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 08a0d74..8ed5cc2 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -310,7 +310,7 @@ class MondrianForest{
 	void compute_posterior_mean(Node const& node, double *posterior_mean) const{
 		//posterior_mean start with the parent posterior_mean and the function updates to the current node
 		double const parent_tau = node.parent >= 0 ? nodes[node.parent].tau : 0; //The tau value of the parent of the root is 0
-		double const node_discount = func::exp(discount_factor * (node.tau - parent_tau));
+		double const node_discount = func::exp(-discount_factor * (node.tau - parent_tau));
 		double sum_counters = 0;
 		double sum_tab = 0;
 		double tab[label_count];
@@ -320,13 +320,14 @@ class MondrianForest{
 			tab[i] = Utils::min(node.counters[i], 1);
 			sum_tab += tab[i];
 		}
-		//For each label with a counter higher than zero, compute the posterior mean. Otherwise it is simply the posterior mean of the parent
+		//A node without any counter keeps the posterior mean of its parent
+		if(sum_counters == 0)
+			return;
+		//For each label, compute the posterior mean
 		for(int i = 0; i < label_count; ++i){
-			if(node.counters[i] > 0){
-				double const a = node.counters[i] - node_discount * tab[i];
-				double const b = node_discount * sum_tab * posterior_mean[i];
-				posterior_mean[i] = (a / sum_counters) + (b /sum_counters);
-			}
+			double const a = node.counters[i] - node_discount * tab[i];
+			double const b = node_discount * sum_tab * posterior_mean[i];
+			posterior_mean[i] = (a / sum_counters) + (b /sum_counters);
 		}
 	}
 	/**
@@ -373,7 +374,7 @@ class MondrianForest{
 
 				for(int l = 0; l < label_count; ++l){
 					//posterior_means of the parent of current_node
-					double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + c_sum * posterior_means[l]);
+					double const posterior_mean = c_sum == 0 ? posterior_means[l] : (1/c_sum) * (c[l] - new_node_discount * c[l] + new_node_discount * c_sum * posterior_means[l]);
 					//Note that *posterior_mean* is the value for the hypothetical parent
 					smoothed_posterior_means[l] += probability_not_separated_yet * probability_of_branching * posterior_mean;
 				}
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 72bf4ab..c4e66e0 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2078,7 +2078,7 @@ bool train_tree(feature_type const* features, int const label, int const tree_id
 void compute_posterior_mean(Node const& node, double *posterior_mean) const{
 	//posterior_mean start with the parent posterior_mean and the function updates to the current node
 	double const parent_tau = node.parent >= 0 ? nodes()[node.parent].tau : 0; //The tau value of the parent of the root is 0
-	double const node_discount = func::exp(discount_factor * (node.tau - parent_tau));
+	double const node_discount = func::exp(-discount_factor * (node.tau - parent_tau));
 	double sum_counters = 0;
 	double sum_tab = 0;
 	double tab[label_count];
@@ -2088,13 +2088,14 @@ void compute_posterior_mean(Node const& node, double *posterior_mean) const{
 		tab[i] = Utils::min(node.counters[i], 1);
 		sum_tab += tab[i];
 	}
-	//For each label with a counter higher than zero, compute the posterior mean. Otherwise it is simply the posterior mean of the parent
+	//A node without any counter keeps the posterior mean of its parent
+	if(sum_counters == 0)
+		return;
+	//For each label, compute the posterior mean
 	for(int i = 0; i < label_count; ++i){
-		if(node.counters[i] > 0){
-			double const a = node.counters[i] - node_discount * tab[i];
-			double const b = node_discount * sum_tab * posterior_mean[i];
-			posterior_mean[i] = (a / sum_counters) + (b /sum_counters);
-		}
+		double const a = node.counters[i] - node_discount * tab[i];
+		double const b = node_discount * sum_tab * posterior_mean[i];
+		posterior_mean[i] = (a / sum_counters) + (b /sum_counters);
 	}
 }
 /**
@@ -2144,7 +2145,7 @@ void predict_tree(feature_type const* features, int const tree_id, double* poste
 
 			for(int l = 0; l < label_count; ++l){
 				//posterior_means of the parent of current_node
-				double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + c_sum * posterior_means[l]);
+				double const posterior_mean = c_sum == 0 ? posterior_means[l] : (1/c_sum) * (c[l] - new_node_discount * c[l] + new_node_discount * c_sum * posterior_means[l]);
 				//Note that *posterior_mean* is the value for the hypothetical parent
 				smoothed_posterior_means[l] += probability_not_separated_yet * probability_of_branching * posterior_mean;
 			}
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index ceb3de0..c507da2 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -90,7 +90,7 @@ class MondrianForestUnbound{
 	void compute_posterior_mean(double *posterior_mean, double const discount_factor) const{
 		//posterior_mean start with the parent posterior_mean and the function updates to the current node
 		double const parent_tau = this->parent != nullptr ? this->parent->tau : 0; //The tau value of the parent of the root is 0
-		double const node_discount = func::exp(discount_factor * (this->tau - parent_tau));
+		double const node_discount = func::exp(-discount_factor * (this->tau - parent_tau));
 		double sum_counters = 0;
 		double sum_tab = 0;
 		double tab[label_count];
@@ -101,15 +101,15 @@ class MondrianForestUnbound{
 			tab[i] = Utils::min(ci, static_cast<double>(1));
 			sum_tab += tab[i];
 		}
-		//For each label with a counter higher than zero, compute the posterior mean. Otherwise it is simply the posterior mean of the parent
+		//A node without any counter keeps the posterior mean of its parent
+		if(sum_counters == 0)
+			return;
+		//For each label, compute the posterior mean
 		for(int i = 0; i < label_count; ++i){
-			long long int ci = this->get_counters(i);
-			if(ci > 0){
-				double const c = static_cast<double>(ci);
-				double const a = c - node_discount * tab[i];
-				double const b = node_discount * sum_tab * posterior_mean[i];
-				posterior_mean[i] = (a / sum_counters) + (b /sum_counters);
-			}
+			double const c = static_cast<double>(this->get_counters(i));
+			double const a = c - node_discount * tab[i];
+			double const b = node_discount * sum_tab * posterior_mean[i];
+			posterior_mean[i] = (a / sum_counters) + (b /sum_counters);
 		}
 	}
 		virtual void update_counters(int const label, long long int const qty)=0;
@@ -411,7 +411,7 @@ class MondrianForestUnbound{
 
 				for(int l = 0; l < label_count; ++l){
 					//posterior_means of the parent of current_node
-					double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + c_sum * posterior_means[l]);
+					double const posterior_mean = c_sum == 0 ? posterior_means[l] : (1/c_sum) * (c[l] - new_node_discount * c[l] + new_node_discount * c_sum * posterior_means[l]);
 					//Note that *posterior_mean* is the value for the hypothetical parent
 					smoothed_posterior_means[l] += probability_not_separated_yet * probability_of_branching * posterior_mean;
 				}
-- 
2.43.0


From 9a340c63325e5a9bbf86fd4a4e9fb9a8e7777e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 28/44] fix: Mondrian predictions use the time since the parent
 of each node

---
 src/mondrian.hpp         | 1 +
 src/mondrian_coarse.hpp  | 1 +
 src/mondrian_unbound.hpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 8ed5cc2..fdb041d 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -390,6 +390,7 @@ class MondrianForest{
 				break;
 			}
 			probability_not_separated_yet *= (1 - probability_of_branching);
+			parent_tau = current_node.tau;
 
 			//Otherwise, the child is picked based on the split of the node
 			if(features[current_node.split_dimension] <= current_node.split_value)
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index c4e66e0..d7283da 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2162,6 +2162,7 @@ void predict_tree(feature_type const* features, int const tree_id, double* poste
 			break;
 		}
 		probability_not_separated_yet *= (1 - probability_of_branching);
+		parent_tau = current_node.tau;
 
 		//Otherwise, the child is picked based on the split of the node
 		if(features[current_node.split_dimension] <= current_node.split_value)
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index c507da2..d786365 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -428,6 +428,7 @@ class MondrianForestUnbound{
 			}
 			InternalNode* inode = dynamic_cast<InternalNode*>(current_node);
 			probability_not_separated_yet *= (1 - probability_of_branching);
+			parent_tau = current_node->tau;
 
 			//Otherwise, the child is picked based on the split of the node
 			if(inode->point_go_left(features))
-- 
2.43.0


From 16a80b702e12e6e473c2aff32a8c9b2c792752f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 29/44] fix: CoarseMondrianForest trains with EXTEND_NONE until
 its memory is full

---
 src/mondrian_coarse.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index d7283da..3eebb14 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2057,8 +2057,12 @@ bool train_tree(feature_type const* features, int const label, int const tree_id
 
 		if(extend_type == EXTEND_ORIGINAL)
 			extend_block0(root_id, tree_id, features, label);
-		else if(extend_type == EXTEND_NONE && node_available <= 2)
-			ret = false;
+		else if(extend_type == EXTEND_NONE){ //Stop training when the memory is full
+			if(node_available <= 2)
+				ret = false;
+			else
+				extend_block0(root_id, tree_id, features, label);
+		}
 		else if(extend_type == EXTEND_PARTIAL_UPDATE)
 			extend_block2(root_id, tree_id, features, label);
 		else if(extend_type == EXTEND_GHOST)
-- 
2.43.0


From 758c1621bbaff747bcfb76ce11420d7436d4c355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 30/44] fix: CoarseMondrianForest initializes the size of its
 trees and the sum of features

---
 src/mondrian_coarse.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 3eebb14..453d5df 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -210,6 +210,7 @@ struct TreeBase{
 	}
 	void reset(int const node_limit=1){
 		root = EMPTY_ROOT;
+		size = 0;
 		node_count_limit = node_limit;
 		statistics.reset();
 		sum_contribution = 0;
@@ -2868,6 +2869,8 @@ CoarseMondrianForest(double const lifetime, double const base_measure, double co
 	int const remaining_memory = max_size - statistics_memory;
 	this->node_count = (remaining_memory - (remaining_memory%sizeof(Node))) / sizeof(Node);
 	this->node_available = node_count;
+	for(int i = 0; i < feature_count; ++i)
+		sum_features[i] = 0;
 	this->maximum_tree_count = (node_count - node_count%7)/7;
 	//Init all roots as empty
 	TreeBase* bases = tree_bases();
-- 
2.43.0


From ecbbcbd7dfcd542f1cc0e822690e29b9bf63f13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 31/44] fix: CoarseMondrianForest trees can grow with the
 default size limit

---
 src/mondrian_coarse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 453d5df..1022a4f 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2891,7 +2891,7 @@ CoarseMondrianForest(double const lifetime, double const base_measure, double co
 			size_limit = limit_to_use;
 		}
 		else if(tree_management == COBBLE_MANAGEMENT || tree_management == OPTIMISTIC_COBBLE_MANAGEMENT)
-			tree_bases()[i].reset(size_limit);
+			tree_bases()[i].reset(size_limit > 0 ? size_limit : node_count); //No limit by default
 		else
 			tree_bases()[i].reset(node_count);
 	for(int i = 0; i < node_count; ++i)
-- 
2.43.0


From d31e886d8c788820a6470937fc577a820037fae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 32/44] fix: CoarseMondrianForest updates the counters of node
 0 and ignores empty trees

---
 src/mondrian_coarse.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 1022a4f..cf2a653 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2202,9 +2202,10 @@ int get_leaf(int const tree_id, feature_type const* features) const{
  */
 void update_posterior_count(int const tree_id, feature_type const* features, int const label){
 	int node_id = get_leaf(tree_id, features);
-	int const leaf_id = node_id;
+	if(node_id < 0) //The tree is empty
+		return;
 	node_id = nodes()[node_id].parent;
-	while(node_id > 0 && node_id < node_count){
+	while(node_id >= 0 && node_id < node_count){
 		Node& node = nodes()[node_id];
 		int const c_left = Utils::min(1, nodes()[node.child_left].counters[label]);
 		int const c_right = Utils::min(1, nodes()[node.child_right].counters[label]);
-- 
2.43.0


From 560b8804afc4437003b55d54763f886003dd3f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 33/44] fix: CoarseMondrianForest counts a leaf on the side of
 the split where it is

---
 src/mondrian_coarse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index cf2a653..5fa3f52 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1291,9 +1291,9 @@ int count_sides(int const start_id, int const split_dimension, double const spli
 				count_right += right;
 			}
 			else if(split_value <= lower)
-				count_left += count;
-			else if(split_value >= upper)
 				count_right += count;
+			else if(split_value >= upper)
+				count_left += count;
 
 			if(node_id == start_id)
 				break;
-- 
2.43.0


From 256159bc30976ae194cf0dc3e686d56266fb7dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 34/44] fix: CoarseMondrianForest keeps every count when a
 split shares the counters of a leaf

---
 src/mondrian_coarse.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 5fa3f52..27d45ac 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1486,10 +1486,7 @@ int adjust_counters(int const start_id, int split_dimension, double split_value,
 				percentage = 1 - percentage;
 			for(int i = 0; i < label_count; ++i){
 				int counter_out = Utils::round(static_cast<double>(node.counters[i]) * percentage);
-				int counter_in = Utils::round(static_cast<double>(node.counters[i]) * (1 - percentage));
-				int const err = node.counters[i] - counter_in - counter_out;
-				if(err != 0)
-					cout << "Error counters" << endl;
+				int counter_in = node.counters[i] - counter_out;
 				to_remove[i] += counter_out;
 				node.counters[i] = counter_in;
 			}
-- 
2.43.0


From 7824b65c117b94e84c222cebeb9f72361b9eb503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 35/44] fix: CoarseMondrianForest only removes the leaves that
 are on the other side of a split

---
 src/mondrian_coarse.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 27d45ac..9dceaf1 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1335,7 +1335,7 @@ int adjust_boxes(int const start_id, int const split_dimension, double const spl
 					if(node.bound_lower[split_dimension] < split_value)
 						node.bound_lower[split_dimension] = split_value;
 				}
-				if(node.bound_upper[split_dimension] - node.bound_lower[split_dimension] == 0){ //This box is zero, let's go up
+				if(node.bound_lower[split_dimension] == split_value && node.bound_upper[split_dimension] == split_value){ //Nothing remains on this side of the split, let's go up
 					depth -= 1;
 					node_id = node.parent;
 					node_reset(node.child_right);
@@ -1360,8 +1360,8 @@ int adjust_boxes(int const start_id, int const split_dimension, double const spl
 
 				Node const& child_left = nodes()[node.child_left];
 				Node const& child_right = nodes()[node.child_right];
-				int const left_zeroed = (child_left.bound_upper[split_dimension] - child_left.bound_lower[split_dimension] == 0);
-				int const right_zeroed = (child_right.bound_upper[split_dimension] - child_right.bound_lower[split_dimension] == 0);
+				int const left_zeroed = (child_left.bound_lower[split_dimension] == split_value && child_left.bound_upper[split_dimension] == split_value);
+				int const right_zeroed = (child_right.bound_lower[split_dimension] == split_value && child_right.bound_upper[split_dimension] == split_value);
 				bool const is_root = (node.parent < 0);
 				bool const is_starting = (node_id == start_id);
 				//NOTE either left or right is zeroed. If both are, then we stop going down at that node before
-- 
2.43.0


From b06ba0c6a142279f0d83d3534902968d86d2df82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 36/44] fix: CoarseMondrianForest maintains the tree sizes
 needed to pause a tree

---
 src/mondrian_coarse.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 9dceaf1..06db4f4 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2958,6 +2958,14 @@ bool train(feature_type const* features, int const label){
     #endif
 	total_count += 1;
 	TreeBase* bases = tree_bases();
+	//The size of the trees is only used by the managements that pause trees
+	if(tree_management == ROBUR_MANAGEMENT || tree_management == PAUSING_PHOENIX_MANAGEMENT){
+		for(int i = 0; i < tree_count; ++i){
+			int tree_node_count = 0;
+			int const depth = tree_depth(i, &tree_node_count);
+			bases[i].size = size_type == DEPTH_SIZE ? depth : tree_node_count;
+		}
+	}
 	bool all_tree_grown = true;
 	//for(int i = 0; i < tree_count; ++i){
 		//int node_count = 0;
-- 
2.43.0


From 2762ca4f83694a4a8382338e74a79bd85f66a47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 37/44] fix: CoarseMondrianForest::node_depth stops at the
 depth it can handle

---
 src/mondrian_coarse.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 06db4f4..87eb492 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2322,6 +2322,8 @@ int node_depth(int const start_id, int* tree_node_count) const{
 			}
 			#endif
 		}
+		if(depth >= max_stack_size) //The tree is deeper than expected
+			return depth+1;
 	}
 	if(tree_node_count != nullptr)
 		*tree_node_count = i;
-- 
2.43.0


From 84526981959d1848bcb18b21a4fe187708b60b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 38/44] fix: CoarseMondrianForest compiles with features that
 are not doubles

---
 src/mondrian_coarse.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 87eb492..daa46b6 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1011,8 +1011,8 @@ void split_node(int const node_id, int const tree_id, feature_type const* featur
 	//Set the box for the new children and the new_parent and the node (depending on the values in features
 	//The current datapoint is passed through after readjusting counters and shape
 	for(int i = 0; i < feature_count; ++i){
-		new_parent.bound_lower[i] = Utils::min(node.bound_lower[i], features[i]);
-		new_parent.bound_upper[i] = Utils::max(node.bound_upper[i], features[i]);
+		new_parent.bound_lower[i] = Utils::min(node.bound_lower[i], static_cast<double>(features[i]));
+		new_parent.bound_upper[i] = Utils::max(node.bound_upper[i], static_cast<double>(features[i]));
 		new_sibling.bound_lower[i] = node.bound_lower[i];
 		new_sibling.bound_upper[i] = node.bound_upper[i];
 	}
@@ -1128,8 +1128,8 @@ bool split_barycenter(int const node_id, int const tree_id, feature_type const*
 	int const dimension = Utils::pick_from_distribution<func>(probabilities, feature_count);
 
 	//Select the bound to choose the split from
-	double lower_value = Utils::min(barycenter[dimension], features[dimension]);
-	double upper_value = Utils::max(barycenter[dimension], features[dimension]);
+	double lower_value = Utils::min(barycenter[dimension], static_cast<double>(features[dimension]));
+	double upper_value = Utils::max(barycenter[dimension], static_cast<double>(features[dimension]));
 
 	//sample the split between [lower_value, upper_value]
 	double const random_value = func::rand_uniform();
@@ -1149,8 +1149,8 @@ bool split_barycenter(int const node_id, int const tree_id, feature_type const*
 	//Set the box for the new children and the new_parent and the node (depending on the values in features
 	//The current datapoint is passed through after readjusting counters and shape
 	for(int i = 0; i < feature_count; ++i){
-		new_parent.bound_lower[i] = Utils::min(node.bound_lower[i], features[i]);
-		new_parent.bound_upper[i] = Utils::max(node.bound_upper[i], features[i]);
+		new_parent.bound_lower[i] = Utils::min(node.bound_lower[i], static_cast<double>(features[i]));
+		new_parent.bound_upper[i] = Utils::max(node.bound_upper[i], static_cast<double>(features[i]));
 		new_sibling.bound_lower[i] = node.bound_lower[i];
 		new_sibling.bound_upper[i] = node.bound_upper[i];
 	}
@@ -1509,8 +1509,8 @@ int pass_data_point_down(int const start_id, feature_type const* features, int c
 		Node& node = nodes()[node_id];
 		//Update box size
 		for(int i = 0; i < feature_count; ++i){
-			double const lower = Utils::min(node.bound_lower[i], features[i]);
-			double const upper = Utils::max(node.bound_upper[i], features[i]);
+			double const lower = Utils::min(node.bound_lower[i], static_cast<double>(features[i]));
+			double const upper = Utils::max(node.bound_upper[i], static_cast<double>(features[i]));
 			node.bound_lower[i] = lower;
 			node.bound_upper[i] = upper;
 		}
-- 
2.43.0


From 28d1123fa84bb99f9307d2d69b694f9683066afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 39/44] fix: CoarseMondrianForest without box update counts a
 point once when it branches off

---
 src/mondrian_coarse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index daa46b6..2072fb9 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -779,6 +779,7 @@ void extend_block3(int const node_id, int const tree_id, feature_type const* fea
 		}
 
 		sample_block(new_sibling, features, label);
+		return; //the data point is in the new sibling, not below the current node
 	}
 	else if(E < 0 || parent_tau + E > node.tau){ //Otherwise, just update the box
 		//update lower bound and upper bound of this node
-- 
2.43.0


From b849fec32f76fb1728252106731aa7f5f7206a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:09 +0000
Subject: [PATCH 40/44] fix: copies of a MondrianForest node keep their parent

---
 src/mondrian.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index fdb041d..c71ee3f 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -53,6 +53,7 @@ class MondrianForest{
 			split_value = src.split_value;
 			child_left = src.child_left;
 			child_right = src.child_right;
+			parent = src.parent;
 			tau = src.tau;
 			for(int i = 0; i < label_count; ++i)
 				counters[i] = src.counters[i];
-- 
2.43.0


From 0744cfebb178e941bc361a4729163b2e535da112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:09 +0000
Subject: [PATCH 41/44] fix: copies of a CoarseMondrianForest node keep its
 parent and its scores

---
 src/mondrian_coarse.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 2072fb9..1461511 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -66,7 +66,10 @@ struct MondrianNode{
 		split_value = src.split_value;
 		child_left = src.child_left;
 		child_right = src.child_right;
+		parent = src.parent;
 		tau = src.tau;
+		forced_extend = src.forced_extend;
+		fading_score = src.fading_score;
 		for(int i = 0; i < label_count; ++i)
 			counters[i] = src.counters[i];
 		for(int i = 0; i < feature_count; ++i){
@@ -82,6 +85,8 @@ struct MondrianNode{
 			child_right = node.child_right;
 			parent = node.parent;
 			tau = node.tau;
+			forced_extend = node.forced_extend;
+			fading_score = node.fading_score;
 			for(int i = 0; i < feature_count; ++i){
 				bound_lower[i] = node.bound_lower[i];
 				bound_upper[i] = node.bound_upper[i];
-- 
2.43.0


From e8379ae34766b10feb3be64f310337d6515b547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:09 +0000
Subject: [PATCH 42/44] fix: Mondrian forests measure the distance to a box in
 double, whatever the feature type

---
 src/mondrian.hpp         |  4 ++--
 src/mondrian_coarse.hpp  | 20 ++++++++++----------
 src/mondrian_unbound.hpp |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index c71ee3f..cdae041 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -124,13 +124,13 @@ class MondrianForest{
 	 */
 	void extend_block(int const node_id, int const tree_id, feature_type const* features, int const label){
 		//e_lower and e_upper are used to compute probabilities
-		feature_type e_lower[feature_count], e_upper[feature_count];
+		double e_lower[feature_count], e_upper[feature_count];
 		double probabilities[feature_count];
 		Node& node = nodes[node_id];
 		int const parent_id = node.parent;
 		double const parent_tau = node.parent >= 0 ? nodes[node.parent].tau : 0; //The tau value of the parent of the root is 0
 		//sum is used as a parameter to pick random numbers following exponential law
-		feature_type sum = 0;
+		double sum = 0;
 		//compute e_lower, e_upper and sum
 		for(int i = 0; i < feature_count; ++i){
 			e_lower[i] = node.bound_lower[i] - features[i] > 0 ? node.bound_lower[i] - features[i] : 0;
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 1461511..abb564b 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -306,13 +306,13 @@ int available_node(void) const{
 //Original extend
 void extend_block0(int const node_id, int const tree_id, feature_type const* features, int const label){
 	//e_lower and e_upper are used to compute probabilities
-	feature_type e_lower[feature_count], e_upper[feature_count];
+	double e_lower[feature_count], e_upper[feature_count];
 	double probabilities[feature_count];
 	Node& node = nodes()[node_id];
 	int const parent_id = node.parent;
 	double const parent_tau = node.parent >= 0 ? nodes()[node.parent].tau : 0; //The tau value of the parent of the root is 0
 	//sum is used as a parameter to pick random numbers following exponential law
-	feature_type sum = 0;
+	double sum = 0;
 	//compute e_lower, e_upper and sum
 	for(int i = 0; i < feature_count; ++i){
 		e_lower[i] = node.bound_lower[i] - features[i] > 0 ? node.bound_lower[i] - features[i] : 0;
@@ -433,13 +433,13 @@ void extend_block0(int const node_id, int const tree_id, feature_type const* fea
 //Update if not split
 void extend_block2(int const node_id, int const tree_id, feature_type const* features, int const label){
 	//e_lower and e_upper are used to compute probabilities
-	feature_type e_lower[feature_count], e_upper[feature_count];
+	double e_lower[feature_count], e_upper[feature_count];
 	double probabilities[feature_count];
 	Node& node = nodes()[node_id];
 	int const parent_id = node.parent;
 	double const parent_tau = node.parent >= 0 ? nodes()[node.parent].tau : 0; //The tau value of the parent of the root is 0
 	//sum is used as a parameter to pick random numbers following exponential law
-	feature_type sum = 0;
+	double sum = 0;
 	//compute e_lower, e_upper and sum
 	for(int i = 0; i < feature_count; ++i){
 		e_lower[i] = node.bound_lower[i] - features[i] > 0 ? node.bound_lower[i] - features[i] : 0;
@@ -558,13 +558,13 @@ void extend_block2(int const node_id, int const tree_id, feature_type const* fea
 //Ghost (stop going down when branch off but no node)
 void extend_block1(int const node_id, int const tree_id, feature_type const* features, int const label){
 	//e_lower and e_upper are used to compute probabilities
-	feature_type e_lower[feature_count], e_upper[feature_count];
+	double e_lower[feature_count], e_upper[feature_count];
 	double probabilities[feature_count];
 	Node& node = nodes()[node_id];
 	int const parent_id = node.parent;
 	double const parent_tau = node.parent >= 0 ? nodes()[node.parent].tau : 0; //The tau value of the parent of the root is 0
 	//sum is used as a parameter to pick random numbers following exponential law
-	feature_type sum = 0;
+	double sum = 0;
 	//compute e_lower, e_upper and sum
 	for(int i = 0; i < feature_count; ++i){
 		e_lower[i] = node.bound_lower[i] - features[i] > 0 ? node.bound_lower[i] - features[i] : 0;
@@ -687,13 +687,13 @@ void extend_block1(int const node_id, int const tree_id, feature_type const* fea
 //Increase counter but don't update box
 void extend_block3(int const node_id, int const tree_id, feature_type const* features, int const label){
 	//e_lower and e_upper are used to compute probabilities
-	feature_type e_lower[feature_count], e_upper[feature_count];
+	double e_lower[feature_count], e_upper[feature_count];
 	double probabilities[feature_count];
 	Node& node = nodes()[node_id];
 	int const parent_id = node.parent;
 	double const parent_tau = node.parent >= 0 ? nodes()[node.parent].tau : 0; //The tau value of the parent of the root is 0
 	//sum is used as a parameter to pick random numbers following exponential law
-	feature_type sum = 0;
+	double sum = 0;
 	//compute e_lower, e_upper and sum
 	for(int i = 0; i < feature_count; ++i){
 		e_lower[i] = node.bound_lower[i] - features[i] > 0 ? node.bound_lower[i] - features[i] : 0;
@@ -813,13 +813,13 @@ void extend_block3(int const node_id, int const tree_id, feature_type const* fea
 //Count forced extend
 void extend_block4(int const node_id, int const tree_id, feature_type const* features, int const label, int const forced_extend_sum=0){
 	//e_lower and e_upper are used to compute probabilities
-	feature_type e_lower[feature_count], e_upper[feature_count];
+	double e_lower[feature_count], e_upper[feature_count];
 	double probabilities[feature_count];
 	Node& node = nodes()[node_id];
 	int const parent_id = node.parent;
 	double const parent_tau = node.parent >= 0 ? nodes()[node.parent].tau : 0; //The tau value of the parent of the root is 0
 	//sum is used as a parameter to pick random numbers following exponential law
-	feature_type sum = 0;
+	double sum = 0;
 	//compute e_lower, e_upper and sum
 	for(int i = 0; i < feature_count; ++i){
 		e_lower[i] = node.bound_lower[i] - features[i] > 0 ? node.bound_lower[i] - features[i] : 0;
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index d786365..31db328 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -228,12 +228,12 @@ class MondrianForestUnbound{
 	 */
 	void extend_block(MondrianNode* node, int const tree_id, feature_type const* features, int const label){
 		//e_lower and e_upper are used to compute probabilities
-		feature_type e_lower[feature_count], e_upper[feature_count];
+		double e_lower[feature_count], e_upper[feature_count];
 		double probabilities[feature_count];
 		MondrianNode* parent = node->parent;
 		double const parent_tau = parent != nullptr ? parent->tau : 0; //The tau value of the parent of the root is 0
 		//sum is used as a parameter to pick random numbers following exponential law
-		feature_type sum = 0;
+		double sum = 0;
 		//compute e_lower, e_upper and sum
 		for(int i = 0; i < feature_count; ++i){
 			e_lower[i] = node->get_lower_bound(i) - features[i] > 0 ? node->get_lower_bound(i) - features[i] : 0;
-- 
2.43.0


From a6bbec894e000b4500512b80f5002e4bc9d40905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:09 +0000
Subject: [PATCH 43/44] fix: MCNN computes distances in double, integral
 features do not overflow

---
 src/mc_nn.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index 9e04dc6..b7b6b9a 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -200,8 +200,10 @@ class MCNN{
 	 */
 	double euclidean_distance(feature_type const* e1, feature_type const* e2) const{
 		double squared_sum = 0;
-		for(int i = 0; i < feature_count; ++i)
-			squared_sum += (e1[i] - e2[i]) * (e1[i] - e2[i]);
+		for(int i = 0; i < feature_count; ++i){
+			double const difference = static_cast<double>(e1[i]) - static_cast<double>(e2[i]);
+			squared_sum += difference * difference;
+		}
 		//NOTE: Not really a distance :D
 		return squared_sum;
 	}
-- 
2.43.0


From 4945f6c4a439aa52eb7c8c9764213eee92820e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:14 +0000
Subject: [PATCH 44/44] fix: printing the nodes of an empty tree or of one
 deeper than 100 levels reads and writes outside of the nodes and the stack

---
 src/mondrian_coarse.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index abb564b..2ef05ce 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -3189,6 +3189,8 @@ void node_csv(int const tree_id, int const node_id, int const depth, int const l
 }
 template<int max_stack_size=100>
 void tree_printy(int const tree_id, int const start_id) const{
+	if(start_id < 0) //The tree is empty
+		return;
 	//Initialize an array to keep track of where we have to go at each tree level.
 	//The max depth expected is MAX_DEPTH.
 	int stack[max_stack_size];
@@ -3240,6 +3242,8 @@ void tree_printy(int const tree_id, int const start_id) const{
 			}
 			#endif
 		}
+		if(depth >= max_stack_size) //The tree is deeper than expected
+			return;
 	}
 }
 void printy(void) const{
-- 
2.43.0

