From 6362c62d08b3c46ee02e55f531ab44bf8cb28e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 01/65] fix: rebuild the synapse index after removing
 postsynaptic synapses

---
 knp/core-library/impl/projection.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/knp/core-library/impl/projection.cpp b/knp/core-library/impl/projection.cpp
index 924afe7..0b92990 100644
--- a/knp/core-library/impl/projection.cpp
+++ b/knp/core-library/impl/projection.cpp
@@ -235,16 +235,11 @@ template <typename SynapseType>
 size_t knp::core::Projection<SynapseType>::remove_postsynaptic_neuron_synapses(size_t neuron_index)  //!OCLINT
 {
     const size_t starting_size = parameters_.size();
-    bool was_index_updated = is_index_updated_;
-    // Basic exception safety.
-    is_index_updated_ = false;
     auto synapses_to_remove = find_synapses(neuron_index, Search::by_postsynaptic);
     std::sort(synapses_to_remove.begin(), synapses_to_remove.end());
+    // Positions of the remaining synapses are shifted, so the index has to be rebuilt.
+    is_index_updated_ = false;
     remove_by_index(parameters_, synapses_to_remove);
-    if (was_index_updated)
-        for (auto &synapse : synapses_to_remove) index_.erase(synapse);
-
-    is_index_updated_ = was_index_updated;
     return starting_size - parameters_.size();
 }
 
-- 
2.43.0


From d7853c2b8b34b8164e0e991343172a25946fca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 02/65] fix: remove the requested neurons whatever the order of
 their indexes

---
 knp/core-library/include/knp/core/population.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/knp/core-library/include/knp/core/population.h b/knp/core-library/include/knp/core/population.h
index 63918f0..42cab38 100644
--- a/knp/core-library/include/knp/core/population.h
+++ b/knp/core-library/include/knp/core/population.h
@@ -26,6 +26,7 @@
 #include <knp/core/uid.h>
 #include <knp/neuron-traits/all_traits.h>
 
+#include <algorithm>
 #include <functional>
 #include <utility>
 #include <vector>
@@ -208,8 +209,12 @@ public:  // NOLINT
      */
     void remove_neurons(const std::vector<size_t> &neuron_indexes)
     {
+        // Indexes can be given in any order, a neuron is removed once.
+        std::vector<size_t> sorted_indexes(neuron_indexes);
+        std::sort(sorted_indexes.begin(), sorted_indexes.end());
+        sorted_indexes.erase(std::unique(sorted_indexes.begin(), sorted_indexes.end()), sorted_indexes.end());
         size_t index_shift = 0;
-        for (const auto &index : neuron_indexes)
+        for (const auto &index : sorted_indexes)
         {
             remove_neuron(index - index_shift++);
         }
-- 
2.43.0


From b05b73ca7261eccd5732c3ea7c89d3e069859b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 03/65] fix: do not use an erased iterator when a receiver is
 removed

---
 knp/core-library/impl/message_endpoint.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/knp/core-library/impl/message_endpoint.cpp b/knp/core-library/impl/message_endpoint.cpp
index cf29d86..c546778 100644
--- a/knp/core-library/impl/message_endpoint.cpp
+++ b/knp/core-library/impl/message_endpoint.cpp
@@ -129,11 +129,15 @@ void MessageEndpoint::remove_receiver(const UID &receiver)
 {
     SPDLOG_DEBUG("Removing receiver {}...", std::string(receiver));
 
-    for (auto sub_iter = subscriptions_.begin(); sub_iter != subscriptions_.end(); ++sub_iter)
+    for (auto sub_iter = subscriptions_.begin(); sub_iter != subscriptions_.end();)
     {
         if (get_receiver_uid(sub_iter->second) == receiver)
         {
-            subscriptions_.erase(sub_iter);
+            sub_iter = subscriptions_.erase(sub_iter);
+        }
+        else
+        {
+            ++sub_iter;
         }
     }
     update_senders();
-- 
2.43.0


From 0d5c7fbcfdf4430a64c48a807afeab0740e8dfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 04/65] fix: deliver messages in the order of sending on the
 CPU message bus

---
 .../message_bus_cpu_impl/message_bus_cpu_impl.cpp  |  6 +++---
 .../message_bus_cpu_impl/message_bus_cpu_impl.h    |  5 +++--
 .../message_endpoint_cpu_impl.h                    | 14 +++++++-------
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
index 8c1fe76..a4a2fee 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
@@ -68,9 +68,9 @@ size_t MessageBusCPUImpl::step()
     const std::lock_guard lock(mutex_);
     if (messages_to_route_.empty()) return 0;  // No more messages left for endpoints to receive.
     // Sending a message to every endpoint.
-    auto message = std::move(messages_to_route_.back());
+    auto message = std::move(messages_to_route_.front());
     // Remove message from container.
-    messages_to_route_.pop_back();
+    messages_to_route_.pop_front();
     const knp::core::UID sender_uid = std::visit([](const auto &msg) { return msg.header_.sender_uid_; }, message);
     for (auto endpoint_data_containers : endpoint_data_)
     {
@@ -92,7 +92,7 @@ core::MessageEndpoint MessageBusCPUImpl::create_endpoint()
 {
     const std::lock_guard lock(mutex_);
 
-    using VT = std::vector<messaging::MessageVariant>;
+    using VT = std::deque<messaging::MessageVariant>;
 
     auto messages_to_send_v{std::make_shared<VT>()};
     auto recv_messages_v{std::make_shared<VT>()};
diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
index 9bd0299..6f98f3b 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
@@ -26,6 +26,7 @@
 
 #include <spdlog/spdlog.h>
 
+#include <deque>
 #include <list>
 #include <memory>
 #include <mutex>
@@ -53,14 +54,14 @@ public:
     [[nodiscard]] core::MessageEndpoint create_endpoint() override;
 
 private:
-    std::vector<knp::core::messaging::MessageVariant> messages_to_route_;
+    std::deque<knp::core::messaging::MessageVariant> messages_to_route_;
 
     // This is a list of endpoint data:
     // First vector is a pointer to a set of messages the endpoint is sending.
     // Second vector is a set of messages endpoint is receiving.
     // Third set contains message senders, and is kept updated by endpoints when they add or remove them.
     std::list<std::tuple<
-        std::weak_ptr<std::vector<messaging::MessageVariant>>, std::weak_ptr<std::vector<messaging::MessageVariant>>,
+        std::weak_ptr<std::deque<messaging::MessageVariant>>, std::weak_ptr<std::deque<messaging::MessageVariant>>,
         std::weak_ptr<std::unordered_set<knp::core::UID, knp::core::uid_hash>>>>
         endpoint_data_;
     std::mutex mutex_;
diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h b/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
index 8ac94ea..c464d0e 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
@@ -24,11 +24,11 @@
 #include <spdlog/spdlog.h>
 
 #include <algorithm>
+#include <deque>
 #include <memory>
 #include <mutex>
 #include <unordered_set>
 #include <utility>
-#include <vector>
 
 /**
  * @brief Namespace for implementations of message bus.
@@ -44,8 +44,8 @@ class MessageEndpointCPUImpl : public MessageEndpointImpl
 {
 public:
     MessageEndpointCPUImpl(
-        std::shared_ptr<std::vector<messaging::MessageVariant>> messages_to_send,
-        std::shared_ptr<std::vector<messaging::MessageVariant>> received_messages)
+        std::shared_ptr<std::deque<messaging::MessageVariant>> messages_to_send,
+        std::shared_ptr<std::deque<messaging::MessageVariant>> received_messages)
         : messages_to_send_(std::move(messages_to_send)), received_messages_(std::move(received_messages))
     {
         SPDLOG_DEBUG("CPU message endpoint creating...");
@@ -70,14 +70,14 @@ public:
             return {};
         }
 
-        auto result = std::move(received_messages_->back());
-        received_messages_->pop_back();
+        auto result = std::move(received_messages_->front());
+        received_messages_->pop_front();
         return result;
     }
 
 private:
-    std::shared_ptr<std::vector<messaging::MessageVariant>> messages_to_send_;
-    std::shared_ptr<std::vector<messaging::MessageVariant>> received_messages_;
+    std::shared_ptr<std::deque<messaging::MessageVariant>> messages_to_send_;
+    std::shared_ptr<std::deque<messaging::MessageVariant>> received_messages_;
     std::unordered_set<knp::core::UID, knp::core::uid_hash> senders_;
     std::mutex mutex_;
 };
-- 
2.43.0


From cd27e118cf9d515e60168ff2d88b64fd0387395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 05/65] fix: compare the synapse types of synaptic impacts

---
 knp/core-library/impl/messaging/synaptic_impact_message.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knp/core-library/impl/messaging/synaptic_impact_message.cpp b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
index 96e9f1f..9b1aca2 100644
--- a/knp/core-library/impl/messaging/synaptic_impact_message.cpp
+++ b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
@@ -34,7 +34,8 @@ bool SynapticImpact::operator==(const SynapticImpact &other) const
 {
     return connection_index_ == other.connection_index_ &&
            presynaptic_neuron_index_ == other.presynaptic_neuron_index_ &&
-           postsynaptic_neuron_index_ == other.postsynaptic_neuron_index_ && impact_value_ == other.impact_value_;
+           postsynaptic_neuron_index_ == other.postsynaptic_neuron_index_ && impact_value_ == other.impact_value_ &&
+           synapse_type_ == other.synapse_type_;
 }
 
 
-- 
2.43.0


From 6ef5c1f733ddcfba4a10e41577e25237cd3d7ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 06/65] fix: clear a used message when an empty one is read
 from a stream

---
 knp/core-library/impl/messaging/spike_message.cpp           | 2 --
 knp/core-library/impl/messaging/synaptic_impact_message.cpp | 1 -
 2 files changed, 3 deletions(-)

diff --git a/knp/core-library/impl/messaging/spike_message.cpp b/knp/core-library/impl/messaging/spike_message.cpp
index f6e9244..f090a9a 100644
--- a/knp/core-library/impl/messaging/spike_message.cpp
+++ b/knp/core-library/impl/messaging/spike_message.cpp
@@ -58,8 +58,6 @@ std::istream &operator>>(std::istream &stream, SpikeMessage &msg)
     size_t neurons_count = 0;
     stream >> msg.header_.sender_uid_ >> msg.header_.send_time_ >> neurons_count;
 
-    if (0 == neurons_count) return stream;
-
     msg.neuron_indexes_.resize(neurons_count);
     for (size_t i = 0; i < neurons_count; ++i)
     {
diff --git a/knp/core-library/impl/messaging/synaptic_impact_message.cpp b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
index 9b1aca2..c4d5f08 100644
--- a/knp/core-library/impl/messaging/synaptic_impact_message.cpp
+++ b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
@@ -83,7 +83,6 @@ std::istream &operator>>(std::istream &stream, SynapticImpactMessage &msg)
         impacts_count;
 
     msg.is_forcing_ = forcing_buf;
-    if (0 == impacts_count) return stream;
 
     msg.impacts_.resize(impacts_count);
     for (size_t i = 0; i < impacts_count; ++i)
-- 
2.43.0


From 7a62f4176c0d92628057c6a9e561cdc39c5805e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 07/65] fix: write impact values to text streams with enough
 digits to read them back

---
 knp/core-library/impl/messaging/synaptic_impact_message.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/knp/core-library/impl/messaging/synaptic_impact_message.cpp b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
index c4d5f08..557fae4 100644
--- a/knp/core-library/impl/messaging/synaptic_impact_message.cpp
+++ b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
@@ -22,6 +22,7 @@
 #include <spdlog/spdlog.h>
 
 #include <algorithm>
+#include <limits>
 
 #include "synaptic_impact_message_impl.h"
 #include "uid_marshal.h"
@@ -60,8 +61,11 @@ std::istream &operator>>(std::istream &stream, SynapticImpact &impact)
 
 std::ostream &operator<<(std::ostream &stream, const SynapticImpact &impact)
 {
+    // The value must be read back unchanged.
+    const auto precision = stream.precision(std::numeric_limits<float>::max_digits10);
     stream << impact.connection_index_ << " " << impact.impact_value_ << " " << static_cast<int>(impact.synapse_type_)
            << " " << impact.presynaptic_neuron_index_ << " " << impact.postsynaptic_neuron_index_;
+    stream.precision(precision);
     return stream;
 }
 
-- 
2.43.0


From 51cfb9f1f60c09a789f8dc07c7d7846585b18d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 08/65] fix: reject duplicate populations and projections added
 as variants

---
 knp/base-framework/impl/network.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/base-framework/impl/network.cpp b/knp/base-framework/impl/network.cpp
index 3810e94..9b61394 100644
--- a/knp/base-framework/impl/network.cpp
+++ b/knp/base-framework/impl/network.cpp
@@ -105,7 +105,7 @@ void Network::add_population(core::AllPopulationsVariant &&population)
 {
     SPDLOG_DEBUG("Adding population variant...");
 
-    // check_population_constraints(std::visit([](const auto &var_val) { return var_val; }, population));
+    std::visit([this](const auto &var_val) { check_population_constraints(var_val); }, population);
 
     populations_.emplace_back(population);
 }
@@ -202,7 +202,7 @@ void Network::add_projection(core::AllProjectionsVariant &&projection)
 {
     SPDLOG_DEBUG("Adding projection variant...");
 
-    // check_projection_constraints(std::visit([](const auto &var_val) { return var_val; }, projection));
+    std::visit([this](const auto &var_val) { check_projection_constraints(var_val); }, projection);
     projections_.emplace_back(projection);
 }
 
-- 
2.43.0


From 75899ba846c88906421fbd6adbe1dff6aff57f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 09/65] fix: keep aligned connections inside the populations

---
 .../include/knp/framework/projection/synapse_generators.h  | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/knp/base-framework/include/knp/framework/projection/synapse_generators.h b/knp/base-framework/include/knp/framework/projection/synapse_generators.h
index 9333512..beca155 100644
--- a/knp/base-framework/include/knp/framework/projection/synapse_generators.h
+++ b/knp/base-framework/include/knp/framework/projection/synapse_generators.h
@@ -100,20 +100,17 @@ template <typename SynapseType>
             syn_gen](size_t index) -> std::optional<typename knp::core::Projection<SynapseType>::Synapse>
     {
         size_t from_index = 0;
-        size_t pack_size = 0;
         size_t to_index = 0;
 
         if (presynaptic_pop_size >= postsynaptic_pop_size)
         {
             from_index = index;
-            pack_size = presynaptic_pop_size / postsynaptic_pop_size;
-            to_index = index / pack_size;
+            to_index = index * postsynaptic_pop_size / presynaptic_pop_size;
         }
         else
         {
             to_index = index;
-            pack_size = postsynaptic_pop_size / presynaptic_pop_size;
-            from_index = index / pack_size;
+            from_index = index * presynaptic_pop_size / postsynaptic_pop_size;
         }
         return std::make_tuple(syn_gen(from_index, to_index), from_index, to_index);
     };
-- 
2.43.0


From 81ce7dda0092d47af2eb028635d5520cf287d0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 10/65] fix: count down the bursting phase of BLIFAT neurons

---
 .../cpu-library/impl/populations/blifat/blifat_impl.h     | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
index 0c31824..1700c3e 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
@@ -37,9 +37,8 @@ inline void calculate_pre_impact_single_neuron_state_impl(
     neuron.inhibitory_conductance_ *= neuron.inhibitory_conductance_decay_;
 
     neuron.potential_ *= neuron.potential_decay_;
-    if (1 == neuron.bursting_phase_)
+    if (neuron.bursting_phase_ > 0 && 0 == --neuron.bursting_phase_)
     {
-        --neuron.bursting_phase_;
         neuron.potential_ += neuron.reflexive_weight_;
     }
 
@@ -59,7 +58,10 @@ inline void calculate_pre_impact_single_neuron_state_impl(
     neuron.is_being_forced_ = false;
 
     neuron.potential_ *= neuron.potential_decay_;
-    if (1 == neuron.bursting_phase_) neuron.potential_ += neuron.reflexive_weight_;
+    if (neuron.bursting_phase_ > 0 && 0 == --neuron.bursting_phase_)
+    {
+        neuron.potential_ += neuron.reflexive_weight_;
+    }
 
     neuron.pre_impact_potential_ = neuron.potential_;
 }
-- 
2.43.0


From 3e55c15adca3a40b2a549fc27b74e73ab941b535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 11/65] fix: do not wrap the number of steps since the last
 spike of BLIFAT neurons

---
 .../cpu-library/impl/populations/blifat/blifat_impl.h     | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
index 1700c3e..b3e18b1 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
@@ -31,7 +31,9 @@ namespace knp::backends::cpu::populations::impl::blifat
 inline void calculate_pre_impact_single_neuron_state_impl(
     knp::neuron_traits::neuron_parameters<knp::neuron_traits::BLIFATNeuron> &neuron)
 {
-    ++neuron.n_time_steps_since_last_firing_;
+    // The maximum means that the neuron has not fired yet, it must not wrap around.
+    if (neuron.n_time_steps_since_last_firing_ < std::numeric_limits<std::size_t>::max())
+        ++neuron.n_time_steps_since_last_firing_;
     neuron.dynamic_threshold_ *= neuron.threshold_decay_;
     neuron.postsynaptic_trace_ *= neuron.postsynaptic_trace_decay_;
     neuron.inhibitory_conductance_ *= neuron.inhibitory_conductance_decay_;
@@ -49,7 +51,9 @@ inline void calculate_pre_impact_single_neuron_state_impl(
 inline void calculate_pre_impact_single_neuron_state_impl(
     knp::neuron_traits::neuron_parameters<knp::neuron_traits::SynapticResourceSTDPBLIFATNeuron> &neuron)
 {
-    ++neuron.n_time_steps_since_last_firing_;
+    // The maximum means that the neuron has not fired yet, it must not wrap around.
+    if (neuron.n_time_steps_since_last_firing_ < std::numeric_limits<std::size_t>::max())
+        ++neuron.n_time_steps_since_last_firing_;
     neuron.dynamic_threshold_ *= neuron.threshold_decay_;
     neuron.postsynaptic_trace_ *= neuron.postsynaptic_trace_decay_;
     neuron.inhibitory_conductance_ *= neuron.inhibitory_conductance_decay_;
-- 
2.43.0


From 306436adab08c7d241010f8cb2f09c1c0a08ab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 12/65] fix: count the inter-spike interval from the last spike
 to the current step

---
 .../knp/backends/cpu-library/impl/populations/training/stdp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
index d65489e..35759f4 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
@@ -105,13 +105,13 @@ neuron_traits::ISIPeriodType update_isi(
             neuron.first_isi_spike_ = step;
             break;
         case neuron_traits::ISIPeriodType::period_started:
-            if (neuron.last_step_ - step < neuron.isi_max_)
+            if (step - neuron.last_step_ < neuron.isi_max_)
             {
                 neuron.isi_status_ = neuron_traits::ISIPeriodType::period_continued;
             }
             break;
         case neuron_traits::ISIPeriodType::period_continued:
-            if (neuron.last_step_ - step >= neuron.isi_max_ || neuron.dopamine_value_ != 0)
+            if (step - neuron.last_step_ >= neuron.isi_max_ || neuron.dopamine_value_ != 0)
             {
                 neuron.isi_status_ = neuron_traits::ISIPeriodType::period_started;
                 neuron.first_isi_spike_ = step;
-- 
2.43.0


From 215c09f0c47836daf51f6285365e8857ed2156a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 13/65] fix: do not wrap the time difference in the dopamine
 stability change

---
 .../backends/cpu-library/impl/populations/altai/altai_stdp.h    | 2 +-
 .../backends/cpu-library/impl/populations/blifat/blifat_stdp.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
index b6ca4d1..b2d99d0 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
@@ -142,7 +142,7 @@ inline void do_dopamine_plasticity_impl(
             {
                 // A dopamine reward when non-forced changes stability by `D max(2 - |t(TSS) - ISImax| / ISImax, -1)`.
                 const double dopamine_constant = 2.0;
-                const double difference = step - neuron.first_isi_spike_ - neuron.isi_max_;
+                const double difference = static_cast<double>(step - neuron.first_isi_spike_) - neuron.isi_max_;
                 neuron.stability_ += neuron.stability_change_parameter_ * neuron.dopamine_value_ *
                                      std::max(dopamine_constant - std::fabs(difference) / neuron.isi_max_, -1.0);
             }
diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
index 7e697a7..c132895 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
@@ -145,7 +145,7 @@ inline void do_dopamine_plasticity_impl(
             {
                 // A dopamine reward when non-forced changes stability by `D max(2 - |t(TSS) - ISImax| / ISImax, -1)`.
                 const double dopamine_constant = 2.0;
-                const double difference = std::fabs(step - neuron.first_isi_spike_ - neuron.isi_max_);
+                const double difference = std::fabs(static_cast<double>(step - neuron.first_isi_spike_) - neuron.isi_max_);
                 neuron.stability_ += neuron.stability_change_parameter_ * neuron.dopamine_value_ *
                                      std::max(dopamine_constant - difference / neuron.isi_max_, -1.0);
             }
-- 
2.43.0


From ef8623d2ec9ba019831f9361cf045a2967b73642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 14/65] fix: do not wrap the start of the dopamine plasticity
 interval

---
 .../backends/cpu-library/impl/populations/altai/altai_stdp.h    | 2 +-
 .../backends/cpu-library/impl/populations/blifat/blifat_stdp.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
index b2d99d0..691f052 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
@@ -56,7 +56,7 @@ inline void process_spiking_neurons_impl(
         {
             neuron.additional_threshold_ += synapse.get().weight_ * (synapse.get().weight_ > 0);
             const bool had_spike = training::stdp::is_point_in_interval(
-                step - synapse.get().rule_.dopamine_plasticity_period_, step,
+                step - std::min<uint64_t>(step, synapse.get().rule_.dopamine_plasticity_period_), step,
                 synapse.get().rule_.last_spike_step_ + synapse.get().delay_ - 1);
             // While period continues we don't change has_contributed from true to false.
             if (neuron_traits::ISIPeriodType::period_continued != neuron.isi_status_ || had_spike)
diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
index c132895..688930f 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
@@ -56,7 +56,7 @@ inline void process_spiking_neurons_impl(
         {
             neuron.additional_threshold_ += synapse.get().weight_ * (synapse.get().weight_ > 0);
             const bool had_spike = training::stdp::is_point_in_interval(
-                step - synapse.get().rule_.dopamine_plasticity_period_, step,
+                step - std::min<uint64_t>(step, synapse.get().rule_.dopamine_plasticity_period_), step,
                 synapse.get().rule_.last_spike_step_ + synapse.get().delay_ - 1);
             // While period continues we don't change has_contributed from true to false.
             if (neuron_traits::ISIPeriodType::period_continued != neuron.isi_status_ || had_spike)
-- 
2.43.0


From d32079965b734f6be093c05b389732499ee707ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:43 +0000
Subject: [PATCH 15/65] fix: do not wrap the time difference of spikes in
 additive STDP

---
 .../cpu-library/impl/projections/training/stdp/additive_stdp.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
index b3bcc8c..c5bda5b 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
@@ -69,7 +69,7 @@ public:
             for (const auto &t_n : postsynaptic_spikes)
             {
                 // cppcheck-suppress useStlAlgorithm
-                w_j += stdp_w(static_cast<float>(t_n - t_f));
+                w_j += stdp_w(static_cast<float>(static_cast<double>(t_n) - static_cast<double>(t_f)));
             }
         }
         return w_j;
-- 
2.43.0


From 1b37af5c0a83f8cf33ee4292e4a06539ce054828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 16/65] fix: record presynaptic spikes of additive STDP at the
 synapses of the presynaptic neuron

---
 .../cpu-library/impl/projections/training/stdp/additive_stdp.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
index c5bda5b..a207adf 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
@@ -156,7 +156,7 @@ inline void init_projection(
             append_spike_times(
                 projection, msg,
                 [&projection](uint32_t neuron_index)
-                { return projection.find_synapses(neuron_index, ProjectionType::Search::by_postsynaptic); },
+                { return projection.find_synapses(neuron_index, ProjectionType::Search::by_presynaptic); },
                 &knp::synapse_traits::STDPAdditiveRule<Synapse>::presynaptic_spike_times_);
         }
         if (processing_type == ProcessingType::STDPOnly)
-- 
2.43.0


From 2c95eafabda2aef407967dd7813d20a84cf72007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 17/65] fix: name the populations of multi-threaded impact
 messages the right way round

---
 .../backends/cpu-library/impl/projections/delta/delta_impl.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
index 032a563..ff1b2a2 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
@@ -165,8 +165,8 @@ void calculate_projection_multithreaded_impl(
         {
             knp::core::messaging::SynapticImpactMessage message_out{
                 {projection_uid, step_n},
-                postsynaptic_uid,
                 presynaptic_uid,
+                postsynaptic_uid,
                 training::stdp::is_forced(projection),
                 {value.second}};
             future_messages.insert(std::make_pair(value.first, message_out));
-- 
2.43.0


From 1d7b6310bffe168e19cab563ffe80b800cd3e3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 18/65] fix: receive impacts sent before a step of the
 multi-threaded backend in that step

---
 knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
index 8b75e80..5edb816 100644
--- a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
+++ b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
@@ -310,6 +310,8 @@ std::vector<size_t> MultiThreadedCPUBackend::get_supported_population_indexes()
 void MultiThreadedCPUBackend::_step()
 {
     SPDLOG_DEBUG("Starting step #{}...", get_step());
+    get_message_bus().route_messages();
+    get_message_endpoint().receive_all_messages();
     calculate_populations();
     get_message_bus().route_messages();
     get_message_endpoint().receive_all_messages();
-- 
2.43.0


From 2d615e04e76090c96130e518c2a96afed4522553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 19/65] fix: process all spike messages of a projection on the
 multi-threaded backend

---
 .../impl/backend.cpp                          | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
index 5edb816..aef961b 100644
--- a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
+++ b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
@@ -232,16 +232,20 @@ void send_message(ProjectionWrapper &projection, core::MessageEndpoint &endpoint
     }
 }
 
-inline std::unordered_map<uint64_t, size_t> convert_spikes(const core::messaging::SpikeMessage &message)
+inline std::unordered_map<uint64_t, size_t> convert_spikes(
+    const std::vector<core::messaging::SpikeMessage> &messages)
 {
     std::unordered_map<knp::core::Step, size_t> result;
-    for (auto neuron_idx : message.neuron_indexes_)
+    for (const auto &message : messages)
     {
-        auto iter = result.find(neuron_idx);
-        if (result.end() == iter)
-            result.insert({neuron_idx, 1});
-        else
-            ++(iter->second);
+        for (auto neuron_idx : message.neuron_indexes_)
+        {
+            auto iter = result.find(neuron_idx);
+            if (result.end() == iter)
+                result.insert({neuron_idx, 1});
+            else
+                ++(iter->second);
+        }
     }
     return result;
 }
@@ -264,7 +268,7 @@ void MultiThreadedCPUBackend::calculate_projections()
         }
 
         // Looping over synapses.
-        converted_message_buffer.emplace_back(convert_spikes(msg_buf[0]));
+        converted_message_buffer.emplace_back(convert_spikes(msg_buf));
         const auto proj_size = std::visit([](const auto &proj) { return proj.size(); }, projection.arg_);
         for (size_t synapse_index = 0; synapse_index < proj_size; synapse_index += projection_part_size_)
         {
-- 
2.43.0


From 9cbd679e7f9ab45eff1c6aea3d1f04bb06fd3412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:33 +0000
Subject: [PATCH 20/65] fix: do not wait for each task when it is posted to the
 thread pool

---
 .../thread_pool/thread_pool_executor.h        | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h b/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h
index 95fab97..d901074 100644
--- a/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h
+++ b/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h
@@ -52,6 +52,19 @@ public:
     {
     }
 
+    /**
+     * @brief Copy pool executor.
+     *
+     * @note The copy adds tasks to the same queue, but its destructor does not wait for them: `boost::asio` makes
+     * temporary copies of the executor for each task.
+     *
+     * @param other executor to copy.
+     */
+    ThreadPoolExecutor(const ThreadPoolExecutor &other)
+        : context_(other.context_), task_count_(other.task_count_), is_copy_(true)
+    {
+    }
+
     /**
      * @brief Get thread pool context.
      * 
@@ -94,7 +107,10 @@ public:
     /**
      * @brief Blocking destructor that waits for all tasks to be completed.
      */
-    ~ThreadPoolExecutor() { join(); }
+    ~ThreadPoolExecutor()
+    {
+        if (!is_copy_) join();
+    }
 
 private:
     template <class Func>
@@ -148,6 +164,7 @@ private:
 
     ThreadPoolContext &context_;
     std::shared_ptr<size_t> task_count_;
+    const bool is_copy_ = false;
 };
 
 }  // namespace knp::backends::cpu_executors
-- 
2.43.0


From b6fa76fea3d30ce33a7cb9f08cc4f915c4e7157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:46 +0000
Subject: [PATCH 21/65] fix: guard the message containers of the CPU bus and
 its endpoints with one mutex

---
 .../message_bus_cpu_impl/message_bus_cpu_impl.cpp   |  9 +++++----
 .../message_bus_cpu_impl/message_bus_cpu_impl.h     |  2 +-
 .../message_endpoint_cpu_impl.h                     | 13 ++++++++-----
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
index a4a2fee..e6ee9a2 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
@@ -40,7 +40,7 @@ public:
 
 void MessageBusCPUImpl::update()
 {
-    std::lock_guard lock(mutex_);
+    std::lock_guard lock(*mutex_);
     // This function is called before routing messages.
     auto iter = endpoint_data_.begin();
     while (iter != endpoint_data_.end())
@@ -65,7 +65,7 @@ void MessageBusCPUImpl::update()
 
 size_t MessageBusCPUImpl::step()
 {
-    const std::lock_guard lock(mutex_);
+    const std::lock_guard lock(*mutex_);
     if (messages_to_route_.empty()) return 0;  // No more messages left for endpoints to receive.
     // Sending a message to every endpoint.
     auto message = std::move(messages_to_route_.front());
@@ -90,14 +90,15 @@ size_t MessageBusCPUImpl::step()
 
 core::MessageEndpoint MessageBusCPUImpl::create_endpoint()
 {
-    const std::lock_guard lock(mutex_);
+    const std::lock_guard lock(*mutex_);
 
     using VT = std::deque<messaging::MessageVariant>;
 
     auto messages_to_send_v{std::make_shared<VT>()};
     auto recv_messages_v{std::make_shared<VT>()};
 
-    auto endpoint = MessageEndpointCPU(std::make_shared<MessageEndpointCPUImpl>(messages_to_send_v, recv_messages_v));
+    auto endpoint = MessageEndpointCPU(
+        std::make_shared<MessageEndpointCPUImpl>(messages_to_send_v, recv_messages_v, mutex_));
     endpoint_data_.emplace_back(messages_to_send_v, recv_messages_v, endpoint.get_senders_ptr());
     return std::move(endpoint);
 }
diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
index 6f98f3b..eb02f47 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
@@ -64,6 +64,6 @@ private:
         std::weak_ptr<std::deque<messaging::MessageVariant>>, std::weak_ptr<std::deque<messaging::MessageVariant>>,
         std::weak_ptr<std::unordered_set<knp::core::UID, knp::core::uid_hash>>>>
         endpoint_data_;
-    std::mutex mutex_;
+    std::shared_ptr<std::mutex> mutex_ = std::make_shared<std::mutex>();
 };
 }  // namespace knp::core::messaging::impl
diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h b/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
index c464d0e..d2e1d33 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
@@ -45,15 +45,17 @@ class MessageEndpointCPUImpl : public MessageEndpointImpl
 public:
     MessageEndpointCPUImpl(
         std::shared_ptr<std::deque<messaging::MessageVariant>> messages_to_send,
-        std::shared_ptr<std::deque<messaging::MessageVariant>> received_messages)
-        : messages_to_send_(std::move(messages_to_send)), received_messages_(std::move(received_messages))
+        std::shared_ptr<std::deque<messaging::MessageVariant>> received_messages, std::shared_ptr<std::mutex> mutex)
+        : messages_to_send_(std::move(messages_to_send)),
+          received_messages_(std::move(received_messages)),
+          mutex_(std::move(mutex))
     {
         SPDLOG_DEBUG("CPU message endpoint creating...");
     }
 
     void send_message(const knp::core::messaging::MessageVariant &message) override
     {
-        const std::lock_guard lock(mutex_);
+        const std::lock_guard lock(*mutex_);
 
         messages_to_send_->push_back(message);
         SPDLOG_TRACE("Message with type index = {} was sent", message.index());
@@ -63,7 +65,7 @@ public:
 
     std::optional<knp::core::messaging::MessageVariant> receive_message() override
     {
-        const std::lock_guard lock(mutex_);
+        const std::lock_guard lock(*mutex_);
 
         if (received_messages_->empty())
         {
@@ -79,7 +81,8 @@ private:
     std::shared_ptr<std::deque<messaging::MessageVariant>> messages_to_send_;
     std::shared_ptr<std::deque<messaging::MessageVariant>> received_messages_;
     std::unordered_set<knp::core::UID, knp::core::uid_hash> senders_;
-    std::mutex mutex_;
+    // Message containers are shared with the bus, so is the mutex.
+    std::shared_ptr<std::mutex> mutex_;
 };
 
 }  // namespace knp::core::messaging::impl
-- 
2.43.0


From 31216a57379b469bb9fd071114f81836d08c5012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 22/65] fix: a backend is not running any more when a start
 predicate ended the run

---
 knp/core-library/impl/backend.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/knp/core-library/impl/backend.cpp b/knp/core-library/impl/backend.cpp
index 3542aea..0389015 100644
--- a/knp/core-library/impl/backend.cpp
+++ b/knp/core-library/impl/backend.cpp
@@ -89,6 +89,7 @@ void Backend::start()
         started_ = false;
         throw;
     }
+    started_ = false;
     SPDLOG_INFO("Backend {} stopped.", std::string(base_.uid_));
 }
 
@@ -109,6 +110,7 @@ void Backend::start(const RunPredicate& run_predicate)
         started_ = false;
         throw;
     }
+    started_ = false;
     SPDLOG_INFO("Backend {} stopped.", std::string(base_.uid_));
 }
 
@@ -137,6 +139,7 @@ void Backend::start(const RunPredicate& pre_step, const RunPredicate& post_step)
         started_ = false;
         throw;
     }
+    started_ = false;
     SPDLOG_INFO("Backend {} stopped.", std::string(base_.uid_));
 }
 
-- 
2.43.0


From 5ab13cc358da5e2fb62bc9e16841eeee81ef3e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:32 +0000
Subject: [PATCH 23/65] fix: select_devices selects all devices with the given
 UIDs and only them

---
 knp/core-library/impl/backend.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/knp/core-library/impl/backend.cpp b/knp/core-library/impl/backend.cpp
index 0389015..f4855f7 100644
--- a/knp/core-library/impl/backend.cpp
+++ b/knp/core-library/impl/backend.cpp
@@ -169,22 +169,26 @@ void Backend::_uninit()
 
 void Backend::select_devices(const std::set<UID>& uids)
 {
+    std::vector<std::unique_ptr<Device>> selected;
+
     for (auto&& device : get_devices())
     {
         SPDLOG_DEBUG("Trying UID {}...", std::string(device->get_uid()));
         if (uids.find(device->get_uid()) != uids.end())
         {
             SPDLOG_INFO("Device with UID {} was selected.", std::string(device->get_uid()));
-            devices_.push_back(std::move(device));
-            return;
+            selected.push_back(std::move(device));
+            continue;
         }
         SPDLOG_TRACE("Device with UID {} was not selected.", std::string(device->get_uid()));
     }
 
-    if (uids.size() != devices_.size())
+    if (uids.size() != selected.size())
     {
         throw std::logic_error("Not all devices were selected.");
     }
+
+    devices_ = std::move(selected);
 }
 
 void Backend::select_device(std::unique_ptr<Device>&& device)
-- 
2.43.0


From cebd0b794b2b51cd5e1877c71c2836d104c58916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:10 +0000
Subject: [PATCH 24/65] fix: a CPU device keeps its UID when it is listed again
 or moved

---
 knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp | 14 +++++++++++---
 knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp     | 15 ++++++++++++---
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp b/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
index 4c0f8d2..f7963c0 100644
--- a/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
+++ b/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
@@ -32,7 +32,8 @@
 namespace knp::devices::cpu
 {
 
-static constexpr const char* ns_uid = "0000-0000-0000-0000";
+// Namespace of device UIDs.
+static const knp::core::UID ns_uid{false};
 
 
 /**
@@ -49,11 +50,17 @@ public:
 CPU::CPU(uint32_t cpu_num) : cpu_num_(cpu_num), power_meter_{std::make_unique<CpuPower>(cpu_num)}
 {
     cpu_name_ = "Unknown CPU " + std::to_string(cpu_num_);
-    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(core::UID(ns_uid))(cpu_name_.c_str()));
+    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(ns_uid)(cpu_name_.c_str()));
 }
 
 
-CPU::CPU(CPU&& other) : cpu_num_{std::move(other.cpu_num_)}, cpu_name_{std::move(other.cpu_name_)} {}
+CPU::CPU(CPU&& other)
+    : Device(other),
+      cpu_num_{other.cpu_num_},
+      cpu_name_{std::move(other.cpu_name_)},
+      power_meter_{std::move(other.power_meter_)}
+{
+}
 
 
 CPU::~CPU() {}
@@ -61,6 +68,7 @@ CPU::~CPU() {}
 
 CPU& CPU::operator=(CPU&& other) noexcept
 {
+    std::swap(base_, other.base_);
     std::swap(cpu_num_, other.cpu_num_);
     cpu_name_.swap(other.cpu_name_);
     power_meter_.swap(other.power_meter_);
diff --git a/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp b/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
index 363ae42..2742a8f 100644
--- a/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
+++ b/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
@@ -44,7 +44,8 @@
 namespace knp::devices::cpu
 {
 
-static constexpr const char* ns_uid = "0000-0000-0000-0000";
+// Namespace of device UIDs.
+static const knp::core::UID ns_uid{false};
 
 
 CPU::CPU(uint32_t cpu_num) : cpu_num_(cpu_num), power_meter_{std::make_unique<CpuPower>(cpu_num)}
@@ -55,11 +56,17 @@ CPU::CPU(uint32_t cpu_num) : cpu_num_(cpu_num), power_meter_{std::make_unique<Cp
 
     cpu_name_ = pcm_instance->getCPUBrandString() + " " + pcm_instance->getCPUFamilyModelString() + " " +
                 std::to_string(cpu_num);
-    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(core::UID(ns_uid))(cpu_name_.c_str()));
+    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(ns_uid)(cpu_name_.c_str()));
 }
 
 
-CPU::CPU(CPU&& other) : cpu_name_{std::move(other.cpu_name_)}, power_meter_{std::move(other.power_meter_)} {}
+CPU::CPU(CPU&& other)
+    : Device(other),
+      cpu_num_{other.cpu_num_},
+      cpu_name_{std::move(other.cpu_name_)},
+      power_meter_{std::move(other.power_meter_)}
+{
+}
 
 
 CPU::~CPU() {}
@@ -67,6 +74,8 @@ CPU::~CPU() {}
 
 CPU& CPU::operator=(CPU&& other) noexcept
 {
+    std::swap(base_, other.base_);
+    std::swap(cpu_num_, other.cpu_num_);
     cpu_name_.swap(other.cpu_name_);
     power_meter_.swap(other.power_meter_);
     return *this;
-- 
2.43.0


From ba6343db0a4fe93b79387669a1e86fd6f8e40838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:27 +0000
Subject: [PATCH 25/65] fix: CPU backends remove populations and projections

---
 .../impl/backend.cpp                          | 27 +++++++++++++++++++
 .../knp/backends/cpu-multi-threaded/backend.h |  4 +--
 .../impl/backend.cpp                          | 27 +++++++++++++++++++
 .../backends/cpu-single-threaded/backend.h    |  4 +--
 4 files changed, 58 insertions(+), 4 deletions(-)

diff --git a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
index aef961b..1006334 100644
--- a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
+++ b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
@@ -31,6 +31,7 @@
 
 #include <spdlog/spdlog.h>
 
+#include <algorithm>
 #include <functional>
 #include <unordered_map>
 #include <vector>
@@ -374,6 +375,32 @@ void MultiThreadedCPUBackend::load_all_populations(const std::vector<knp::core::
 }
 
 
+void MultiThreadedCPUBackend::remove_projections(const std::vector<knp::core::UID> &uids)
+{
+    const auto is_removed = [this, &uids](const auto &projection)
+    {
+        const auto uid = std::visit([](const auto &entity) { return entity.get_uid(); }, projection.arg_);
+        if (std::find(uids.begin(), uids.end(), uid) == uids.end()) return false;
+        get_message_endpoint().remove_receiver(uid);
+        return true;
+    };
+    projections_.erase(std::remove_if(projections_.begin(), projections_.end(), is_removed), projections_.end());
+}
+
+
+void MultiThreadedCPUBackend::remove_populations(const std::vector<knp::core::UID> &uids)
+{
+    const auto is_removed = [this, &uids](const auto &population)
+    {
+        const auto uid = std::visit([](const auto &entity) { return entity.get_uid(); }, population);
+        if (std::find(uids.begin(), uids.end(), uid) == uids.end()) return false;
+        get_message_endpoint().remove_receiver(uid);
+        return true;
+    };
+    populations_.erase(std::remove_if(populations_.begin(), populations_.end(), is_removed), populations_.end());
+}
+
+
 std::vector<std::unique_ptr<knp::core::Device>> MultiThreadedCPUBackend::get_devices() const
 {
     std::vector<std::unique_ptr<knp::core::Device>> result;
diff --git a/knp/backends/cpu/cpu-multi-threaded-backend/include/knp/backends/cpu-multi-threaded/backend.h b/knp/backends/cpu/cpu-multi-threaded-backend/include/knp/backends/cpu-multi-threaded/backend.h
index 68ed000..84a4c37 100644
--- a/knp/backends/cpu/cpu-multi-threaded-backend/include/knp/backends/cpu-multi-threaded/backend.h
+++ b/knp/backends/cpu/cpu-multi-threaded-backend/include/knp/backends/cpu-multi-threaded/backend.h
@@ -315,14 +315,14 @@ public:
      *
      * @param uids UIDs of projections to remove.
      */
-    void remove_projections(const std::vector<knp::core::UID> &uids) override {}
+    void remove_projections(const std::vector<knp::core::UID> &uids) override;
 
     /**
      * @brief Remove populations with given UIDs from the backend.
      *
      * @param uids UIDs of populations to remove.
      */
-    void remove_populations(const std::vector<knp::core::UID> &uids) override {}
+    void remove_populations(const std::vector<knp::core::UID> &uids) override;
 
 public:
     /**
diff --git a/knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp b/knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp
index 40c8f12..0d386af 100644
--- a/knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp
+++ b/knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp
@@ -32,6 +32,7 @@
 
 #include <spdlog/spdlog.h>
 
+#include <algorithm>
 #include <vector>
 
 #include <boost/mp11.hpp>
@@ -186,6 +187,32 @@ void SingleThreadedCPUBackend::load_all_populations(const std::vector<knp::core:
 }
 
 
+void SingleThreadedCPUBackend::remove_projections(const std::vector<knp::core::UID> &uids)
+{
+    const auto is_removed = [this, &uids](const auto &projection)
+    {
+        const auto uid = std::visit([](const auto &entity) { return entity.get_uid(); }, projection.arg_);
+        if (std::find(uids.begin(), uids.end(), uid) == uids.end()) return false;
+        get_message_endpoint().remove_receiver(uid);
+        return true;
+    };
+    projections_.erase(std::remove_if(projections_.begin(), projections_.end(), is_removed), projections_.end());
+}
+
+
+void SingleThreadedCPUBackend::remove_populations(const std::vector<knp::core::UID> &uids)
+{
+    const auto is_removed = [this, &uids](const auto &population)
+    {
+        const auto uid = std::visit([](const auto &entity) { return entity.get_uid(); }, population);
+        if (std::find(uids.begin(), uids.end(), uid) == uids.end()) return false;
+        get_message_endpoint().remove_receiver(uid);
+        return true;
+    };
+    populations_.erase(std::remove_if(populations_.begin(), populations_.end(), is_removed), populations_.end());
+}
+
+
 std::vector<std::unique_ptr<knp::core::Device>> SingleThreadedCPUBackend::get_devices() const
 {
     std::vector<std::unique_ptr<knp::core::Device>> result;
diff --git a/knp/backends/cpu/cpu-single-threaded-backend/include/knp/backends/cpu-single-threaded/backend.h b/knp/backends/cpu/cpu-single-threaded-backend/include/knp/backends/cpu-single-threaded/backend.h
index 5cbb49d..e346e30 100644
--- a/knp/backends/cpu/cpu-single-threaded-backend/include/knp/backends/cpu-single-threaded/backend.h
+++ b/knp/backends/cpu/cpu-single-threaded-backend/include/knp/backends/cpu-single-threaded/backend.h
@@ -284,14 +284,14 @@ public:
      *
      * @param uids UIDs of projections to remove.
      */
-    void remove_projections(const std::vector<knp::core::UID> &uids) override {}
+    void remove_projections(const std::vector<knp::core::UID> &uids) override;
 
     /**
      * @brief Remove populations with given UIDs from the backend.
      *
      * @param uids UIDs of populations to remove.
      */
-    void remove_populations(const std::vector<knp::core::UID> &uids) override {}
+    void remove_populations(const std::vector<knp::core::UID> &uids) override;
 
 public:
     /**
-- 
2.43.0


From 349b309f8a3d7f1b3d217a6b79986522e2485125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 26/65] fix: backends list the types they support

---
 knp/meta-library/include/knp/meta/stringify.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/meta-library/include/knp/meta/stringify.h b/knp/meta-library/include/knp/meta/stringify.h
index ebcc688..0948038 100644
--- a/knp/meta-library/include/knp/meta/stringify.h
+++ b/knp/meta-library/include/knp/meta/stringify.h
@@ -92,7 +92,7 @@ std::vector<size_t> get_supported_type_indexes()
     std::vector<size_t> result;
     result.reserve(boost::mp11::mp_size<SupportedTypes>::value);
 
-    boost::mp11::mp_for_each<knp::meta::mp_supported_indexes<SupportedTypes, AllTypes>>([&result](auto i)
+    boost::mp11::mp_for_each<knp::meta::mp_supported_indexes<AllTypes, SupportedTypes>>([&result](auto i)
                                                                                         { result.push_back(i); });
 
     return result;
@@ -115,7 +115,7 @@ std::vector<std::string> get_supported_type_names(const NamesType &type_names)
     std::vector<std::string> result;
     result.reserve(boost::mp11::mp_size<SupportedTypes>::value);
 
-    boost::mp11::mp_for_each<knp::meta::mp_supported_indexes<SupportedTypes, AllTypes>>(
+    boost::mp11::mp_for_each<knp::meta::mp_supported_indexes<AllTypes, SupportedTypes>>(
         [&type_names, &result](auto i) { result.push_back(std::get<i>(type_names)); });
 
     return result;
-- 
2.43.0


From 4bf8db6afa0223048a88aa76fa9054b812526053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:20 +0000
Subject: [PATCH 27/65] fix: the model loader keeps channels apart whose UIDs
 fall into one hash bucket

---
 knp/base-framework/impl/model_loader.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/knp/base-framework/impl/model_loader.cpp b/knp/base-framework/impl/model_loader.cpp
index 2770968..b6d6f7b 100644
--- a/knp/base-framework/impl/model_loader.cpp
+++ b/knp/base-framework/impl/model_loader.cpp
@@ -34,17 +34,16 @@ void ModelLoader::init_channels(
     knp::framework::Model &model, const std::unordered_multimap<core::UID, core::UID, core::uid_hash> &channels,
     GenType channel_gen)
 {
-    for (size_t i = 0; i < channels.bucket_count(); ++i)
+    // Elements with the same key are adjacent.
+    for (auto channel_iter = channels.begin(); channel_iter != channels.end();)
     {
-        auto bucket_iter = channels.begin(i);
-        if (channels.end(i) == bucket_iter) continue;
-        auto channel_uid = bucket_iter->first;
+        const auto channel_uid = channel_iter->first;
+        const auto channel_end = channels.equal_range(channel_uid).second;
 
         std::vector<core::UID> p_uids;
-        p_uids.reserve(channels.bucket_size(i));
 
         std::transform(
-            bucket_iter, channels.end(i), std::back_inserter(p_uids),
+            channel_iter, channel_end, std::back_inserter(p_uids),
 #ifdef __clang__
 #    pragma clang diagnostic push
 #    pragma clang diagnostic ignored "-Wunused-lambda-capture"
@@ -60,6 +59,7 @@ void ModelLoader::init_channels(
 #    pragma clang diagnostic pop
 #endif
         (this->*channel_gen)(model, channel_uid, p_uids);
+        channel_iter = channel_end;
     }
 }
 
-- 
2.43.0


From 998a0eb773ef8e44500a0a5416895a7c88ac1a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:41 +0000
Subject: [PATCH 28/65] fix: an output channel can be read over any interval of
 steps

---
 knp/base-framework/impl/output_channel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/output_channel.cpp b/knp/base-framework/impl/output_channel.cpp
index 056f217..c69d766 100644
--- a/knp/base-framework/impl/output_channel.cpp
+++ b/knp/base-framework/impl/output_channel.cpp
@@ -56,7 +56,8 @@ std::vector<core::messaging::SpikeMessage> OutputChannel::read_some_from_buffer(
 {
     std::vector<core::messaging::SpikeMessage> result;
 
-    result.reserve(starting_step + final_step + 1);
+    if (starting_step > final_step) return result;
+
     // Here we assume that buffer is sorted.
     auto begin_iter = std::lower_bound(message_buffer_.begin(), message_buffer_.end(), starting_step, comp_lower);
     auto end_iter = std::upper_bound(message_buffer_.begin(), message_buffer_.end(), final_step, comp_upper);
-- 
2.43.0


From 33d943ff08cc2500a31b4de4f7349afc16606b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:12 +0000
Subject: [PATCH 29/65] fix: the model executor sends inputs only for the steps
 it makes

---
 knp/base-framework/impl/model_executor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/knp/base-framework/impl/model_executor.cpp b/knp/base-framework/impl/model_executor.cpp
index 71c18be..227a4f3 100644
--- a/knp/base-framework/impl/model_executor.cpp
+++ b/knp/base-framework/impl/model_executor.cpp
@@ -96,13 +96,14 @@ void ModelExecutor::start(core::Backend::RunPredicate run_predicate)
     get_backend()->start(
         [this, run_predicate](knp::core::Step step)
         {
+            // Run user predicate. Inputs are sent only for steps that will be made.
+            if (!run_predicate(step)) return false;
             // Sending inputs from the channels.
             for (auto &i_ch : loader_.get_inputs())
             {
                 i_ch.send(step);
             }
-            // Run user predicate.
-            return run_predicate(step);
+            return true;
         },
         [this](knp::core::Step)
         {
-- 
2.43.0


From d41063c01311c2bb0caca5c02e03f5b1587219b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:33 +0000
Subject: [PATCH 30/65] fix: group WTA without winners passes no spikes

---
 knp/base-framework/impl/message_handlers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/knp/base-framework/impl/message_handlers.cpp b/knp/base-framework/impl/message_handlers.cpp
index e7c6cb6..83297bd 100644
--- a/knp/base-framework/impl/message_handlers.cpp
+++ b/knp/base-framework/impl/message_handlers.cpp
@@ -78,6 +78,10 @@ knp::core::messaging::SpikeData GroupWtaRandomHandler::operator()(
     {
         return messages[0].neuron_indexes_;
     }
+    if (0 == num_winners_)
+    {
+        return {};
+    }
 
     const auto &spikes = messages[0].neuron_indexes_;
     if (spikes.empty())
-- 
2.43.0


From 07ee8702c102b16e8efcc54ac0ff3a7ec4c64c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:00 +0000
Subject: [PATCH 31/65] fix: the sequence converter makes no spikes of values
 it could not read

---
 .../include/knp/framework/io/in_converters/sequence_converter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h b/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h
index fbae413..b9c757d 100644
--- a/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h
+++ b/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h
@@ -81,7 +81,7 @@ public:
         for (size_t i = 0; i < data_size_; ++i)
         {
             ValueType value;
-            *stream_ >> value;
+            if (!(*stream_ >> value)) break;
             if (interpret_(value))
             {
                 message_data.push_back(i);
-- 
2.43.0


From 510743dad8e947a4602866e091b3bd7f2437fc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 32/65] fix: the header of the aggregated spikes log has the
 columns of the log

---
 knp/base-framework/impl/monitoring/model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knp/base-framework/impl/monitoring/model.cpp b/knp/base-framework/impl/monitoring/model.cpp
index 7d9e255..da50c38 100644
--- a/knp/base-framework/impl/monitoring/model.cpp
+++ b/knp/base-framework/impl/monitoring/model.cpp
@@ -111,6 +111,8 @@ void write_aggregated_spikes_logger_header(
     std::vector<std::string> vec(senders_names.size());
     std::transform(senders_names.begin(), senders_names.end(), vec.begin(), [](const auto &val) { return val.second; });
     std::sort(vec.begin(), vec.end());
+    // Senders with the same name share a column.
+    vec.erase(std::unique(vec.begin(), vec.end()), vec.end());
     log_stream << "Index";
     for (const auto &name : vec) log_stream << ", " << name;
     log_stream << std::endl;
-- 
2.43.0


From 1c26c67c329aa712bf967277206ebb3755a01ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:44 +0000
Subject: [PATCH 33/65] fix: the status logger respects its logging period

---
 knp/base-framework/impl/monitoring/model.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/knp/base-framework/impl/monitoring/model.cpp b/knp/base-framework/impl/monitoring/model.cpp
index da50c38..e582947 100644
--- a/knp/base-framework/impl/monitoring/model.cpp
+++ b/knp/base-framework/impl/monitoring/model.cpp
@@ -233,10 +233,13 @@ void add_status_logger(
         std::visit([&populations_uids](auto const &neuron) { populations_uids.push_back(neuron.get_uid()); }, neuron);
     }
     model_executor.add_observer<knp::core::messaging::SpikeMessage>(
-        [&log_stream](const std::vector<knp::core::messaging::SpikeMessage> &messages)
+        [&log_stream, &model_executor, logging_period,
+         messages_count = static_cast<size_t>(0)](const std::vector<knp::core::messaging::SpikeMessage> &messages) mutable
         {
-            if (messages.empty()) return;
-            log_stream << messages.size() << std::endl;
+            messages_count += messages.size();
+            if (model_executor.get_backend()->get_step() % logging_period != 0 || 0 == messages_count) return;
+            log_stream << messages_count << std::endl;
+            messages_count = 0;
         },
         populations_uids);
 }
-- 
2.43.0


From fef4fbb241a0f1c4bae50c881c4a4dacf1ad58e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:18 +0000
Subject: [PATCH 34/65] fix: an incomplete image at the end of a stream makes
 no frame

---
 .../impl/data_processing/classification/image.cpp              | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/data_processing/classification/image.cpp b/knp/base-framework/impl/data_processing/classification/image.cpp
index 68f1d81..d83f5eb 100644
--- a/knp/base-framework/impl/data_processing/classification/image.cpp
+++ b/knp/base-framework/impl/data_processing/classification/image.cpp
@@ -40,7 +40,8 @@ void Dataset::process_labels_and_images(
 
     while (images_stream.good() && labels_stream.good())
     {
-        images_stream.read(reinterpret_cast<char *>(image_reading_buffer.data()), image_size);
+        // The end of the images, or an incomplete image.
+        if (!images_stream.read(reinterpret_cast<char *>(image_reading_buffer.data()), image_size)) break;
         auto spikes_frame = image_to_spikes(image_reading_buffer);
 
         std::string str;
-- 
2.43.0


From e7dee3fe4627d2e2b328bfb292338faea5b8755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:41 +0000
Subject: [PATCH 35/65] fix: the last label may have no newline after it

---
 .../impl/data_processing/classification/image.cpp              | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/data_processing/classification/image.cpp b/knp/base-framework/impl/data_processing/classification/image.cpp
index d83f5eb..f1d1431 100644
--- a/knp/base-framework/impl/data_processing/classification/image.cpp
+++ b/knp/base-framework/impl/data_processing/classification/image.cpp
@@ -45,7 +45,8 @@ void Dataset::process_labels_and_images(
         auto spikes_frame = image_to_spikes(image_reading_buffer);
 
         std::string str;
-        if (!std::getline(labels_stream, str).good()) break;
+        // The last label may have no newline after it.
+        if (!std::getline(labels_stream, str)) break;
         int label = std::stoi(str);
 
         // Push to training data set because we dont know dataset size yet for a split
-- 
2.43.0


From 01ad08dc55a02efd2c8e0e65edf3bc487aad5b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:44 +0000
Subject: [PATCH 36/65] fix: a loaded backend keeps its library loaded

---
 knp/base-framework/impl/backend_loader.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/backend_loader.cpp b/knp/base-framework/impl/backend_loader.cpp
index 4d2f322..f4165f3 100644
--- a/knp/base-framework/impl/backend_loader.cpp
+++ b/knp/base-framework/impl/backend_loader.cpp
@@ -24,6 +24,7 @@
 #include <spdlog/spdlog.h>
 
 #include <functional>
+#include <utility>
 
 #include <boost/dll/import.hpp>
 
@@ -64,7 +65,11 @@ std::shared_ptr<core::Backend> BackendLoader::load(const std::filesystem::path &
         SPDLOG_ERROR("Unable to load backend from " + backend_path.string());
         throw std::runtime_error("Couldn't load backend from path \"" + backend_path.string() + "\"");
     }
-    return result;
+
+    // Code of the backend is in the library: keep the library loaded at least as long as the backend exists.
+    auto *backend = result.get();
+    return {backend, [creator = std::move(creator), result = std::move(result)](core::Backend *) mutable
+            { result.reset(); }};
 }
 
 
-- 
2.43.0


From 9674fbc8ee21b83f6d640501736ced5712ff20e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:09 +0000
Subject: [PATCH 37/65] fix: the Python property is_reset of AltAI neurons is
 is_reset_

---
 knp/python-framework/impl/neuron_traits/cpp/altai_lif.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/python-framework/impl/neuron_traits/cpp/altai_lif.cpp b/knp/python-framework/impl/neuron_traits/cpp/altai_lif.cpp
index f263c62..1a85a10 100644
--- a/knp/python-framework/impl/neuron_traits/cpp/altai_lif.cpp
+++ b/knp/python-framework/impl/neuron_traits/cpp/altai_lif.cpp
@@ -34,7 +34,7 @@ void export_altai_lif()
             "neuron receives a spike, the `potential` parameter takes a value by which the potential threshold is "
             "exceeded.")
         .add_property(
-            "is_reset", &alif_params::is_diff_,
+            "is_reset", &alif_params::is_reset_,
             "If `is_reset` flag is set to `true` and neuron potential exceeds its threshold value after the neuron "
             "receives a spike, the `potential` parameter takes a value of the `potential_reset_value` parameter.")
         .add_property(
-- 
2.43.0


From 53c54a0f57d7ec45fd940b50be000c37debfb179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:47 +0000
Subject: [PATCH 38/65] fix: Python indices of neurons and synapses are
 checked, synapses can be read

---
 knp/python-framework/impl/core/cpp/common.h       | 10 ++++++++++
 knp/python-framework/impl/core/cpp/population.cpp |  3 +--
 knp/python-framework/impl/core/cpp/population.h   |  9 +++++++++
 knp/python-framework/impl/core/cpp/projection.cpp |  4 +---
 knp/python-framework/impl/core/cpp/projection.h   |  9 +++++++++
 5 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/knp/python-framework/impl/core/cpp/common.h b/knp/python-framework/impl/core/cpp/common.h
index 4db4b8a..a4bf272 100644
--- a/knp/python-framework/impl/core/cpp/common.h
+++ b/knp/python-framework/impl/core/cpp/common.h
@@ -126,6 +126,16 @@ std::vector<T> py_iterable_to_vector(const py::object &iterable)
 }
 
 
+inline void check_index(size_t index, size_t size)
+{
+    if (index >= size)
+    {
+        PyErr_SetString(PyExc_IndexError, "Index is out of range.");
+        py::throw_error_already_set();
+    }
+}
+
+
 // Adapter a member function that returns a unique_ptr to
 // a python function object that returns a raw pointer but
 // explicitly passes ownership to Python.
diff --git a/knp/python-framework/impl/core/cpp/population.cpp b/knp/python-framework/impl/core/cpp/population.cpp
index 392fb4e..f2267b9 100644
--- a/knp/python-framework/impl/core/cpp/population.cpp
+++ b/knp/python-framework/impl/core/cpp/population.cpp
@@ -76,8 +76,7 @@
             .def("__len__", &core::Population<nt::neuron_type>::size, "Count number of neurons in the population.")   \
             .def(                                                                                                     \
                 "__getitem__",                                                                                        \
-                static_cast<core::Population<nt::neuron_type>::NeuronParameters &(                                    \
-                    core::Population<nt::neuron_type>::*)(size_t)>(&core::Population<nt::neuron_type>::operator[]),   \
+                &population_get_item_wrapper<nt::neuron_type>,                                                        \
                 py::return_internal_reference<>(), "Get parameter values of a neuron with the given index.")          \
             .add_property(                                                                                            \
                 "uid",                                                                                                \
diff --git a/knp/python-framework/impl/core/cpp/population.h b/knp/python-framework/impl/core/cpp/population.h
index 583878f..fc49c0d 100644
--- a/knp/python-framework/impl/core/cpp/population.h
+++ b/knp/python-framework/impl/core/cpp/population.h
@@ -81,6 +81,15 @@ void population_neurons_add_wrapper(core::Population<ElemType> &population, cons
 };
 
 
+template <typename ElemType>
+typename core::Population<ElemType>::NeuronParameters &population_get_item_wrapper(
+    core::Population<ElemType> &population, size_t index)
+{
+    check_index(index, population.size());
+    return population[index];
+};
+
+
 namespace nt = knp::neuron_traits;
 
 #define INSTANCE_POPULATION_CONVERTER(n, template_for_instance, neuron_type)                     \
diff --git a/knp/python-framework/impl/core/cpp/projection.cpp b/knp/python-framework/impl/core/cpp/projection.cpp
index a8add8d..f933a52 100644
--- a/knp/python-framework/impl/core/cpp/projection.cpp
+++ b/knp/python-framework/impl/core/cpp/projection.cpp
@@ -108,9 +108,7 @@ py::class_<core::Synapse>(
             .def("__len__", &core::Projection<st::synapse_type>::size, "Count number of synapses in the projection.")  \
             .def(                                                                                                      \
                 "__getitem__",                                                                                         \
-                static_cast<core::Projection<st::synapse_type>::Synapse &(                                             \
-                    core::Projection<st::synapse_type>::*)(size_t)>(&core::Projection<st::synapse_type>::operator[]),  \
-                py::return_internal_reference<>(),                                                                     \
+                &projection_get_item_wrapper<st::synapse_type>,                                                        \
                 "Get parameter values of a synapse with the given index.");  // NOLINT
 
 
diff --git a/knp/python-framework/impl/core/cpp/projection.h b/knp/python-framework/impl/core/cpp/projection.h
index 3c963a2..7ef6fef 100644
--- a/knp/python-framework/impl/core/cpp/projection.h
+++ b/knp/python-framework/impl/core/cpp/projection.h
@@ -88,6 +88,15 @@ void projection_synapses_add_wrapper(
 };
 
 
+template <typename ElemType>
+typename core::Projection<ElemType>::Synapse projection_get_item_wrapper(
+    core::Projection<ElemType> &projection, size_t index)
+{
+    check_index(index, projection.size());
+    return projection[index];
+};
+
+
 namespace st = knp::synapse_traits;
 
 #define INSTANCE_PROJECTION_CONVERTER(n, template_for_instance, synapse_type)                       \
-- 
2.43.0


From 41d5cc40925f7454f353a50604b36817c7e5cef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:30 +0000
Subject: [PATCH 39/65] fix: neurons can be removed by a Python list of their
 indexes

---
 knp/python-framework/impl/core/cpp/population.cpp | 2 +-
 knp/python-framework/impl/core/cpp/population.h   | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/knp/python-framework/impl/core/cpp/population.cpp b/knp/python-framework/impl/core/cpp/population.cpp
index f2267b9..aa1b400 100644
--- a/knp/python-framework/impl/core/cpp/population.cpp
+++ b/knp/python-framework/impl/core/cpp/population.cpp
@@ -67,7 +67,7 @@
                 "Construct a population by running a neuron generator.")                                              \
             .def("add_neurons", &population_neurons_add_wrapper<nt::neuron_type>, "Add neurons to the population.")   \
             .def(                                                                                                     \
-                "remove_neurons", &core::Population<nt::neuron_type>::remove_neurons,                                 \
+                "remove_neurons", &population_neurons_remove_wrapper<nt::neuron_type>,                                \
                 "Remove neurons with given indexes from the population.")                                             \
             .def(                                                                                                     \
                 "remove_neuron", &core::Population<nt::neuron_type>::remove_neuron,                                   \
diff --git a/knp/python-framework/impl/core/cpp/population.h b/knp/python-framework/impl/core/cpp/population.h
index fc49c0d..3ca8d7e 100644
--- a/knp/python-framework/impl/core/cpp/population.h
+++ b/knp/python-framework/impl/core/cpp/population.h
@@ -81,6 +81,13 @@ void population_neurons_add_wrapper(core::Population<ElemType> &population, cons
 };
 
 
+template <typename ElemType>
+void population_neurons_remove_wrapper(core::Population<ElemType> &population, const py::object &neuron_indexes)
+{
+    population.remove_neurons(py_iterable_to_vector<size_t>(neuron_indexes));
+};
+
+
 template <typename ElemType>
 typename core::Population<ElemType>::NeuronParameters &population_get_item_wrapper(
     core::Population<ElemType> &population, size_t index)
-- 
2.43.0


From 47b46c6fab2c502d30e181aa3804e55583cf5419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:35 +0000
Subject: [PATCH 40/65] fix: impacts of messages and ISI states of neurons can
 be read in Python

---
 .../impl/core/cpp/synaptic_impact_message.cpp             | 3 +++
 knp/python-framework/impl/core/python/messaging.py        | 2 ++
 .../impl/neuron_traits/cpp/resource_stdp_blifat.cpp       | 6 ++++++
 .../impl/neuron_traits/python/__init__.py                 | 8 +++++++-
 4 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/knp/python-framework/impl/core/cpp/synaptic_impact_message.cpp b/knp/python-framework/impl/core/cpp/synaptic_impact_message.cpp
index 308a5bc..34fc130 100644
--- a/knp/python-framework/impl/core/cpp/synaptic_impact_message.cpp
+++ b/knp/python-framework/impl/core/cpp/synaptic_impact_message.cpp
@@ -41,6 +41,9 @@ void export_synaptic_impact()
             "Index of the postsynaptic neuron connected to the synapse.");
 
 
+    py::class_<std::vector<msg::SynapticImpact>>("SynapticImpacts", "List of synaptic impacts.")
+        .def(py::vector_indexing_suite<std::vector<msg::SynapticImpact>>());
+
     py::class_<msg::SynapticImpactMessage>("SynapticImpactMessage", "Structure of the synaptic impact message.")
         .def_readwrite("header", &msg::SynapticImpactMessage::header_, "Message header.")
         .def_readwrite(
diff --git a/knp/python-framework/impl/core/python/messaging.py b/knp/python-framework/impl/core/python/messaging.py
index a095a89..9e1e668 100644
--- a/knp/python-framework/impl/core/python/messaging.py
+++ b/knp/python-framework/impl/core/python/messaging.py
@@ -29,6 +29,7 @@ from knp.core._knp_python_framework_core import (
     SynapticImpact,
     SynapticImpactMessage,
     SynapticImpactMessages,
+    SynapticImpacts,
 )
 
 
@@ -39,4 +40,5 @@ __all__ = [
     'SynapticImpact',
     'SynapticImpactMessage',
     'SynapticImpactMessages',
+    'SynapticImpacts',
 ]
diff --git a/knp/python-framework/impl/neuron_traits/cpp/resource_stdp_blifat.cpp b/knp/python-framework/impl/neuron_traits/cpp/resource_stdp_blifat.cpp
index 27f7036..db0766b 100644
--- a/knp/python-framework/impl/neuron_traits/cpp/resource_stdp_blifat.cpp
+++ b/knp/python-framework/impl/neuron_traits/cpp/resource_stdp_blifat.cpp
@@ -19,6 +19,12 @@ void export_resource_stdp_blifat()
     using bn_params = knp::neuron_traits::neuron_parameters<knp::neuron_traits::BLIFATNeuron>;
 
 
+    py::enum_<knp::neuron_traits::ISIPeriodType>("ISIPeriodType")
+        .value("IS_FORCED", knp::neuron_traits::ISIPeriodType::is_forced)
+        .value("PERIOD_STARTED", knp::neuron_traits::ISIPeriodType::period_started)
+        .value("PERIOD_CONTINUED", knp::neuron_traits::ISIPeriodType::period_continued)
+        .value("NOT_IN_PERIOD", knp::neuron_traits::ISIPeriodType::not_in_period);
+
     py::class_<rsbn_params, py::bases<bn_params>>(
         "SynapticResourceSTDPBLIFATNeuronParameters",
         "Structure for BLIFAT neuron parameters with support of synaptic resource-based STDP.")
diff --git a/knp/python-framework/impl/neuron_traits/python/__init__.py b/knp/python-framework/impl/neuron_traits/python/__init__.py
index 847b96f..9a5fad0 100644
--- a/knp/python-framework/impl/neuron_traits/python/__init__.py
+++ b/knp/python-framework/impl/neuron_traits/python/__init__.py
@@ -25,6 +25,12 @@ from knp.neuron_traits._knp_python_framework_neuron_traits import (
     BLIFATNeuronParameters,
     SynapticResourceSTDPBLIFATNeuronParameters,
     AltAILIFNeuronParameters,
+    ISIPeriodType,
 )
 
-__all__ = ['BLIFATNeuronParameters', 'SynapticResourceSTDPBLIFATNeuronParameters', 'AltAILIFNeuronParameters']
+__all__ = [
+    'BLIFATNeuronParameters',
+    'SynapticResourceSTDPBLIFATNeuronParameters',
+    'AltAILIFNeuronParameters',
+    'ISIPeriodType',
+]
-- 
2.43.0


From aacd7aca2029482166b8b5bf8c86559b5d8026e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:14 +0000
Subject: [PATCH 41/65] fix: populations, projections and channels can be read
 in Python

---
 .../impl/base_framework/cpp/model.cpp         |  4 ++--
 .../impl/base_framework/cpp/model_utility.h   | 20 +++++++++++++++----
 .../impl/base_framework/cpp/network.cpp       |  5 +++++
 .../impl/base_framework/cpp/network_utility.h | 12 +++++++++++
 4 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/knp/python-framework/impl/base_framework/cpp/model.cpp b/knp/python-framework/impl/base_framework/cpp/model.cpp
index cbe1ab9..84f2795 100644
--- a/knp/python-framework/impl/base_framework/cpp/model.cpp
+++ b/knp/python-framework/impl/base_framework/cpp/model.cpp
@@ -35,6 +35,6 @@ void export_model()
             "network",
             py::make_function(&get_network_from_model, py::return_value_policy<py::reference_existing_object>()),
             &set_network_to_model, "Network associated with model.")
-        .add_property("input_channels", &get_model_input_channels, "Return all input channels UIDs.")
-        .add_property("output_channels", &get_model_output_channels, "Return all output channels UIDs.");
+        .add_property("input_channels", &get_model_input_channels, "Return UIDs of all input channels with UIDs of their projections.")
+        .add_property("output_channels", &get_model_output_channels, "Return UIDs of all output channels with UIDs of their populations.");
 }
diff --git a/knp/python-framework/impl/base_framework/cpp/model_utility.h b/knp/python-framework/impl/base_framework/cpp/model_utility.h
index fa30da4..63ac7d1 100644
--- a/knp/python-framework/impl/base_framework/cpp/model_utility.h
+++ b/knp/python-framework/impl/base_framework/cpp/model_utility.h
@@ -46,13 +46,25 @@ void set_network_to_model(knp::framework::Model &self, knp::framework::Network &
 }
 
 
-auto get_model_input_channels(knp::framework::Model &self)
+template <class ChannelMap>
+py::list channels_to_list(const ChannelMap &channels)
 {
-    return self.get_input_channels();
+    py::list result;
+    for (const auto &[channel_uid, entity_uid] : channels)
+    {
+        result.append(py::make_tuple(channel_uid, entity_uid));
+    }
+    return result;
 }
 
 
-auto get_model_output_channels(knp::framework::Model &self)
+py::list get_model_input_channels(knp::framework::Model &self)
 {
-    return self.get_output_channels();
+    return channels_to_list(self.get_input_channels());
+}
+
+
+py::list get_model_output_channels(knp::framework::Model &self)
+{
+    return channels_to_list(self.get_output_channels());
 }
diff --git a/knp/python-framework/impl/base_framework/cpp/network.cpp b/knp/python-framework/impl/base_framework/cpp/network.cpp
index 18cbfdc..6a408f9 100644
--- a/knp/python-framework/impl/base_framework/cpp/network.cpp
+++ b/knp/python-framework/impl/base_framework/cpp/network.cpp
@@ -26,6 +26,11 @@
 
 void export_network()
 {
+    py::to_python_converter<
+        knp::core::AllPopulationsVariant, entity_variant_to_python<knp::core::AllPopulationsVariant>>();
+    py::to_python_converter<
+        knp::core::AllProjectionsVariant, entity_variant_to_python<knp::core::AllProjectionsVariant>>();
+
     py::class_<knp::framework::Network>(
         "Network", "The Network class is a definition of a neural network that contains populations and projections.")
         .def(py::init<const knp::core::UID&>())
diff --git a/knp/python-framework/impl/base_framework/cpp/network_utility.h b/knp/python-framework/impl/base_framework/cpp/network_utility.h
index 4d40e19..3a70ac8 100644
--- a/knp/python-framework/impl/base_framework/cpp/network_utility.h
+++ b/knp/python-framework/impl/base_framework/cpp/network_utility.h
@@ -26,6 +26,18 @@
 #include <knp/framework/network.h>
 
 #include <utility>
+#include <variant>
+
+
+// Converts a population or a projection of any type to a Python object of its own type.
+template <class Variant>
+struct entity_variant_to_python
+{
+    static PyObject *convert(const Variant &variant)
+    {
+        return std::visit([](const auto &entity) { return py::incref(py::object(entity).ptr()); }, variant);
+    }
+};
 
 
 void network_add_projection_variant(knp::framework::Network &self, knp::core::AllProjectionsVariant proj)
-- 
2.43.0


From df600ab8e1798567f17abc4f6c75113173fee057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:55 +0000
Subject: [PATCH 42/65] fix: Python lists of UIDs are accepted by observers and
 when a backend removes entities

---
 .../impl/base_framework/cpp/model_executor_utility.h   | 10 ++++++----
 knp/python-framework/impl/core/cpp/backend_wrapper.h   |  8 ++++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/knp/python-framework/impl/base_framework/cpp/model_executor_utility.h b/knp/python-framework/impl/base_framework/cpp/model_executor_utility.h
index ae87104..29f436f 100644
--- a/knp/python-framework/impl/base_framework/cpp/model_executor_utility.h
+++ b/knp/python-framework/impl/base_framework/cpp/model_executor_utility.h
@@ -27,6 +27,7 @@
 #include <utility>
 #include <vector>
 
+#include "../../core/cpp/common.h"
 
 template <class DataOut, class DataIn>
 struct BinaryFunction
@@ -112,19 +113,20 @@ void start_model_executor_predicate(knp::framework::ModelExecutor &self, const p
 
 
 void add_executor_spike_observer(
-    knp::framework::ModelExecutor &self, const py::object &message_proc, const std::vector<knp::core::UID> &senders)
+    knp::framework::ModelExecutor &self, const py::object &message_proc, const py::object &senders)
 {
     self.add_observer(
-        std::function{BinaryFunction<void, std::vector<knp::core::messaging::SpikeMessage>>{message_proc}}, senders);
+        std::function{BinaryFunction<void, std::vector<knp::core::messaging::SpikeMessage>>{message_proc}},
+        py_iterable_to_vector<knp::core::UID>(senders));
 }
 
 
 void add_executor_impact_observer(
-    knp::framework::ModelExecutor &self, const py::object &impact_proc, const std::vector<knp::core::UID> &senders)
+    knp::framework::ModelExecutor &self, const py::object &impact_proc, const py::object &senders)
 {
     self.add_observer(
         std::function{BinaryFunction<void, std::vector<knp::core::messaging::SynapticImpactMessage>>{impact_proc}},
-        senders);
+        py_iterable_to_vector<knp::core::UID>(senders));
 }
 
 
diff --git a/knp/python-framework/impl/core/cpp/backend_wrapper.h b/knp/python-framework/impl/core/cpp/backend_wrapper.h
index 857011e..919821a 100644
--- a/knp/python-framework/impl/core/cpp/backend_wrapper.h
+++ b/knp/python-framework/impl/core/cpp/backend_wrapper.h
@@ -174,10 +174,14 @@ void export_backend()
             "load_all_projections", py::pure_virtual(&core::Backend::load_all_projections),
             "Add projections to backend.")
         .def(
-            "remove_projections", py::pure_virtual(&core::Backend::remove_projections),
+            "remove_projections",
+            make_handler([](core::Backend &self, const py::object &uids)
+                         { self.remove_projections(py_iterable_to_vector<core::UID>(uids)); }),
             "Remove projections with given UIDs from the backend.")
         .def(
-            "remove_populations", py::pure_virtual(&core::Backend::remove_populations),
+            "remove_populations",
+            make_handler([](core::Backend &self, const py::object &uids)
+                         { self.remove_populations(py_iterable_to_vector<core::UID>(uids)); }),
             "Remove populations with given UIDs from the backend.")
         // .def("get_current_devices",
         // py::pure_virtual(static_cast<std::vector<std::unique_ptr<core::Device>>&(core::Backend::*)()>(&core::Backend::get_current_devices)),
-- 
2.43.0


From f2d24211127dca84cd814d0f18304a4061f77867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:38 +0000
Subject: [PATCH 43/65] fix: Python objects keep alive the objects that own
 them

---
 knp/python-framework/impl/base_framework/cpp/model.cpp     | 2 +-
 .../impl/base_framework/cpp/model_executor.cpp             | 2 +-
 knp/python-framework/impl/core/cpp/common.h                | 7 +++++++
 knp/python-framework/impl/core/cpp/message_bus.cpp         | 7 +++++--
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/knp/python-framework/impl/base_framework/cpp/model.cpp b/knp/python-framework/impl/base_framework/cpp/model.cpp
index 84f2795..e555926 100644
--- a/knp/python-framework/impl/base_framework/cpp/model.cpp
+++ b/knp/python-framework/impl/base_framework/cpp/model.cpp
@@ -33,7 +33,7 @@ void export_model()
         // .add_property("tags", &knp::framework::Model::get_tags)
         .add_property(
             "network",
-            py::make_function(&get_network_from_model, py::return_value_policy<py::reference_existing_object>()),
+            py::make_function(&get_network_from_model, py::return_internal_reference<>()),
             &set_network_to_model, "Network associated with model.")
         .add_property("input_channels", &get_model_input_channels, "Return UIDs of all input channels with UIDs of their projections.")
         .add_property("output_channels", &get_model_output_channels, "Return UIDs of all output channels with UIDs of their populations.");
diff --git a/knp/python-framework/impl/base_framework/cpp/model_executor.cpp b/knp/python-framework/impl/base_framework/cpp/model_executor.cpp
index 1f049f7..eb4f330 100644
--- a/knp/python-framework/impl/base_framework/cpp/model_executor.cpp
+++ b/knp/python-framework/impl/base_framework/cpp/model_executor.cpp
@@ -39,6 +39,6 @@ void export_model_executor()
         .def("stop_learning", &knp::framework::ModelExecutor::stop_learning, "Lock synapse weights.")
         .def("get_backend", &knp::framework::ModelExecutor::get_backend, "Get reference of backend object.")
         .def(
-            "get_output_channel", &get_output_channel, py::return_value_policy<py::reference_existing_object>(),
+            "get_output_channel", &get_output_channel, py::return_internal_reference<>(),
             "Get output channel reference.");
 }
diff --git a/knp/python-framework/impl/core/cpp/common.h b/knp/python-framework/impl/core/cpp/common.h
index a4bf272..395ffc0 100644
--- a/knp/python-framework/impl/core/cpp/common.h
+++ b/knp/python-framework/impl/core/cpp/common.h
@@ -119,6 +119,13 @@ py::object make_handler(F func)
 }
 
 
+template <typename R, typename... Args, typename Policies>
+py::object make_handler_with_policies(std::function<R(Args...)> func, const Policies &policies)
+{
+    return py::detail::make_function_aux(func, policies, boost::mpl::vector<std::decay_t<R>, Args...>());
+}
+
+
 template <typename T>
 std::vector<T> py_iterable_to_vector(const py::object &iterable)
 {
diff --git a/knp/python-framework/impl/core/cpp/message_bus.cpp b/knp/python-framework/impl/core/cpp/message_bus.cpp
index f9c8709..4553bc3 100644
--- a/knp/python-framework/impl/core/cpp/message_bus.cpp
+++ b/knp/python-framework/impl/core/cpp/message_bus.cpp
@@ -27,8 +27,11 @@ void export_message_bus()
         "MessageBus", "The MessageBus class is a definition of an interface to a message bus.", py::no_init)
         .def(
             "create_endpoint",
-            make_handler([](core::MessageBus &self)
-                         { return std::make_shared<core::MessageEndpoint>(self.create_endpoint()); }),
+            // An endpoint keeps the owner of its bus (and the code of the bus) alive.
+            make_handler_with_policies(
+                to_function([](core::MessageBus &self)
+                            { return std::make_shared<core::MessageEndpoint>(self.create_endpoint()); }),
+                py::with_custodian_and_ward_postcall<0, 1>()),
             "Create a new endpoint that sends and receives messages through the message bus.")
         .def("step", &core::MessageBus::step, "Route some messages.")
         .def("route_messages", &core::MessageBus::route_messages, "Route messages.");
-- 
2.43.0


From 336d0860424d838c79613b8787a130c30179dc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:33 +0000
Subject: [PATCH 44/65] fix: a UID can be made of a Python list of its bytes

---
 knp/python-framework/impl/core/cpp/uid.cpp    |  4 +---
 .../impl/core/cpp/uid_utilities.h             | 19 +++++++++++++++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/knp/python-framework/impl/core/cpp/uid.cpp b/knp/python-framework/impl/core/cpp/uid.cpp
index 88c8c92..a134b3c 100644
--- a/knp/python-framework/impl/core/cpp/uid.cpp
+++ b/knp/python-framework/impl/core/cpp/uid.cpp
@@ -52,9 +52,7 @@ void export_uid()
         // Create a UID from `boost::uuids::uuid`.
         .def(py::init<boost::uuids::uuid>())
         // Create a UID from an array of 16 uint8_t integers.
-        .def(py::init<std::array<
-                 boost::uuids::uuid::value_type,
-                 sizeof(boost::uuids::uuid::data) / sizeof(boost::uuids::uuid::data[0])>>())
+        .def("__init__", py::make_constructor(&uid_from_list))
         .def(py::init<core::UID>())  // "Constructor that creates a copy of an existing UID."
         .def(py::self_ns::str(py::self))
         .def("__bool__", &core::UID::operator bool, "Check if UID is valid.")
diff --git a/knp/python-framework/impl/core/cpp/uid_utilities.h b/knp/python-framework/impl/core/cpp/uid_utilities.h
index 4a2cc03..e386f76 100644
--- a/knp/python-framework/impl/core/cpp/uid_utilities.h
+++ b/knp/python-framework/impl/core/cpp/uid_utilities.h
@@ -22,6 +22,7 @@
 #pragma once
 
 #include <algorithm>
+#include <memory>
 #include <string>
 #include <vector>
 
@@ -75,6 +76,24 @@ struct uid_from_python
 };
 
 
+inline std::shared_ptr<knp::core::UID> uid_from_list(const py::list& values)
+{
+    constexpr auto expected_size = boost::uuids::uuid::static_size();
+    const auto bytes = py_iterable_to_vector<uint8_t>(values);
+    if (bytes.size() != expected_size)
+    {
+        const auto error_message = "UID must contain exactly " + std::to_string(expected_size) + " bytes, got " +
+                                   std::to_string(bytes.size()) + ".";
+        PyErr_SetString(PyExc_ValueError, error_message.c_str());
+        py::throw_error_already_set();
+    }
+
+    boost::uuids::uuid uuid;
+    std::copy_n(bytes.begin(), expected_size, uuid.begin());
+    return std::make_shared<knp::core::UID>(uuid);
+}
+
+
 inline auto get_py_hash(const knp::core::UID& uid)
 {
     const knp::core::uid_hash hash;
-- 
2.43.0


From afb073c767e2f6a936fef482a02dd2f3ae579482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:50 +0000
Subject: [PATCH 45/65] fix: Python objects of other types are not taken for
 parameters of neurons and synapses

---
 knp/python-framework/impl/core/cpp/common.h     | 11 -----------
 knp/python-framework/impl/core/cpp/population.h |  1 -
 knp/python-framework/impl/core/cpp/projection.h |  1 -
 3 files changed, 13 deletions(-)

diff --git a/knp/python-framework/impl/core/cpp/common.h b/knp/python-framework/impl/core/cpp/common.h
index 395ffc0..d18ec3c 100644
--- a/knp/python-framework/impl/core/cpp/common.h
+++ b/knp/python-framework/impl/core/cpp/common.h
@@ -69,17 +69,6 @@ namespace core = knp::core;
 namespace detail
 {
 
-template <typename T>
-void register_direct_converter()
-{
-    // Need to register converter.
-    // Without this extract from the different module can't convert Python object to C++ object.
-    py::converter::registry::insert(
-        [](PyObject *p) { return static_cast<void *>(p); }, py::type_id<T>(),
-        &py::converter::registered_pytype_direct<T>::get_pytype);
-}
-
-
 template <typename F>
 struct function_traits : public function_traits<decltype(&F::operator())>
 {
diff --git a/knp/python-framework/impl/core/cpp/population.h b/knp/python-framework/impl/core/cpp/population.h
index 3ca8d7e..e7da10d 100644
--- a/knp/python-framework/impl/core/cpp/population.h
+++ b/knp/python-framework/impl/core/cpp/population.h
@@ -100,7 +100,6 @@ typename core::Population<ElemType>::NeuronParameters &population_get_item_wrapp
 namespace nt = knp::neuron_traits;
 
 #define INSTANCE_POPULATION_CONVERTER(n, template_for_instance, neuron_type)                     \
-    detail::register_direct_converter<nt::neuron_parameters<knp::neuron_traits::neuron_type>>(); \
     py::implicitly_convertible<core::Population<nt::neuron_type>, core::AllPopulationsVariant>();
 
 
diff --git a/knp/python-framework/impl/core/cpp/projection.h b/knp/python-framework/impl/core/cpp/projection.h
index 7ef6fef..6459597 100644
--- a/knp/python-framework/impl/core/cpp/projection.h
+++ b/knp/python-framework/impl/core/cpp/projection.h
@@ -100,7 +100,6 @@ typename core::Projection<ElemType>::Synapse projection_get_item_wrapper(
 namespace st = knp::synapse_traits;
 
 #define INSTANCE_PROJECTION_CONVERTER(n, template_for_instance, synapse_type)                       \
-    detail::register_direct_converter<st::synapse_parameters<knp::synapse_traits::synapse_type>>(); \
     py::implicitly_convertible<core::Projection<st::synapse_type>, core::AllProjectionsVariant>();
 
 
-- 
2.43.0


From 0c798515fa56e1e2deddb2fb6fed2756e3f3e3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:09 +0000
Subject: [PATCH 46/65] fix: an endpoint made in Python is destroyed before its
 bus

---
 knp/python-framework/impl/core/cpp/common.h       |  7 -------
 .../impl/core/cpp/message_bus.cpp                 | 15 ++++++++++-----
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/knp/python-framework/impl/core/cpp/common.h b/knp/python-framework/impl/core/cpp/common.h
index d18ec3c..209a1af 100644
--- a/knp/python-framework/impl/core/cpp/common.h
+++ b/knp/python-framework/impl/core/cpp/common.h
@@ -108,13 +108,6 @@ py::object make_handler(F func)
 }
 
 
-template <typename R, typename... Args, typename Policies>
-py::object make_handler_with_policies(std::function<R(Args...)> func, const Policies &policies)
-{
-    return py::detail::make_function_aux(func, policies, boost::mpl::vector<std::decay_t<R>, Args...>());
-}
-
-
 template <typename T>
 std::vector<T> py_iterable_to_vector(const py::object &iterable)
 {
diff --git a/knp/python-framework/impl/core/cpp/message_bus.cpp b/knp/python-framework/impl/core/cpp/message_bus.cpp
index 4553bc3..b35e1d7 100644
--- a/knp/python-framework/impl/core/cpp/message_bus.cpp
+++ b/knp/python-framework/impl/core/cpp/message_bus.cpp
@@ -27,11 +27,16 @@ void export_message_bus()
         "MessageBus", "The MessageBus class is a definition of an interface to a message bus.", py::no_init)
         .def(
             "create_endpoint",
-            // An endpoint keeps the owner of its bus (and the code of the bus) alive.
-            make_handler_with_policies(
-                to_function([](core::MessageBus &self)
-                            { return std::make_shared<core::MessageEndpoint>(self.create_endpoint()); }),
-                py::with_custodian_and_ward_postcall<0, 1>()),
+            make_handler(
+                [](const py::object &self)
+                {
+                    auto endpoint = std::make_unique<core::MessageEndpoint>(
+                        py::extract<core::MessageBus &>(self)().create_endpoint());
+                    // An endpoint keeps the owner of its bus (and the code of the bus) alive until it is destroyed.
+                    // Python would release a ward before that, when the garbage collector finds the endpoint.
+                    return std::shared_ptr<core::MessageEndpoint>(
+                        endpoint.release(), [self](core::MessageEndpoint *ptr) { delete ptr; });
+                }),
             "Create a new endpoint that sends and receives messages through the message bus.")
         .def("step", &core::MessageBus::step, "Route some messages.")
         .def("route_messages", &core::MessageBus::route_messages, "Route messages.");
-- 
2.43.0


From c785da9af5fca51a80c41f46a068aa75e80beeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:37 +0000
Subject: [PATCH 47/65] fix: Python keeps libraries of backends loaded

---
 knp/python-framework/impl/core/cpp/core.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/knp/python-framework/impl/core/cpp/core.cpp b/knp/python-framework/impl/core/cpp/core.cpp
index aca01df..39c6efd 100644
--- a/knp/python-framework/impl/core/cpp/core.cpp
+++ b/knp/python-framework/impl/core/cpp/core.cpp
@@ -36,9 +36,22 @@
 #include "tuple_converter.h"
 
 
+// Keeps libraries of backends loaded until the process ends: Boost.Python remembers the types of backends, which are
+// defined in these libraries, after the backends are destroyed.
+class LibraryKeeper : public knp::framework::BackendLoader
+{
+public:
+    void keep(const std::filesystem::path& backend_path) { make_creator(backend_path); }
+};
+
+
 auto load_backend(knp::framework::BackendLoader& loader, const py::object& backend_path)
 {
-    return loader.load(py::extract<std::string>(backend_path)());
+    static auto* keeper = new LibraryKeeper();  // NOLINT
+    const std::string path = py::extract<std::string>(backend_path)();
+    auto backend = loader.load(path);
+    keeper->keep(path);
+    return backend;
 }
 
 
-- 
2.43.0


From 5652d2c89e24d20dce8d79e2ea1490a8391b90bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:23 +0000
Subject: [PATCH 48/65] fix: message bus without limits on numbers of queued
 messages

With the default high-water marks of ZMQ sockets, sending of more than 2000
messages before their routing never returned and more than 2000 routed
messages that were not received yet were silently dropped.
---
 .../message_bus_zmq_impl.cpp                  | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp b/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp
index 72fad81..951353b 100644
--- a/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp
+++ b/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp
@@ -53,6 +53,23 @@ public:
 };
 
 
+/**
+ * @brief Remove limits on numbers of queued messages.
+ * @note By default, a socket that has too many messages queued blocks or drops them, depending on its type.
+ * @param socket socket that is not bound or connected yet.
+ */
+static void remove_queue_limits(zmq::socket_t &socket)
+{
+    constexpr int no_limit = 0;
+
+    if (zmq_setsockopt(socket.handle(), ZMQ_SNDHWM, &no_limit, sizeof(no_limit)) != 0 ||
+        zmq_setsockopt(socket.handle(), ZMQ_RCVHWM, &no_limit, sizeof(no_limit)) != 0)
+    {
+        throw zmq::error_t();
+    }
+}
+
+
 MessageBusZMQImpl::MessageBusZMQImpl()
     :  // TODO: Replace with std::format.
       router_sock_address_("inproc://route_" + std::string(UID())),
@@ -61,6 +78,8 @@ MessageBusZMQImpl::MessageBusZMQImpl()
       publish_socket_(context_, zmq::socket_type::pub)
 {
     SPDLOG_DEBUG("ZMQ message bus creating...");
+    remove_queue_limits(router_socket_);
+    remove_queue_limits(publish_socket_);
     SPDLOG_DEBUG("Router socket binding to {}...", router_sock_address_);
     router_socket_.bind(router_sock_address_);
     SPDLOG_DEBUG("Publish socket binding to {}...", publish_sock_address_);
@@ -166,6 +185,8 @@ MessageEndpoint MessageBusZMQImpl::create_endpoint()
     sub_socket.setsockopt(ZMQ_SUBSCRIBE, nullptr, 0);
 #endif
     // #endif
+    remove_queue_limits(sub_socket);
+    remove_queue_limits(pub_socket);
     SPDLOG_DEBUG("Pub socket connecting to {}...", router_sock_address_);
     pub_socket.connect(router_sock_address_);
     SPDLOG_DEBUG("Sub socket connecting to {}...", publish_sock_address_);
-- 
2.43.0


From 86637a85e322c9401ae12abb6cec1a79730970ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:11 +0000
Subject: [PATCH 49/65] fix: define position_network as it is declared

---
 knp/base-framework/impl/visualizer/visualize_network.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/knp/base-framework/impl/visualizer/visualize_network.cpp b/knp/base-framework/impl/visualizer/visualize_network.cpp
index 97cef63..80e7e65 100644
--- a/knp/base-framework/impl/visualizer/visualize_network.cpp
+++ b/knp/base-framework/impl/visualizer/visualize_network.cpp
@@ -507,8 +507,7 @@ void position_network_test(
  * @return node coordinates.
  */
 std::vector<cv::Point2i> position_network(
-    const NetworkGraph &graph, const std::vector<int> &nodes, const cv::Size &screen_size, int margin,
-    int num_iterations)
+    const NetworkGraph &graph, const std::vector<int> &nodes, cv::Size screen_size, int margin, int num_iterations)
 {
     VisualGraph vis_graph(nodes, build_adjacency_list(graph));
     vis_graph.iterate(num_iterations);
-- 
2.43.0


From c51eb3b1177991754dc3f9df1ff1ede32f3e3d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:34 +0000
Subject: [PATCH 50/65] fix: network graph with a projection to a population
 that is not in the network

---
 knp/base-framework/impl/visualizer/visualize_network.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knp/base-framework/impl/visualizer/visualize_network.cpp b/knp/base-framework/impl/visualizer/visualize_network.cpp
index 80e7e65..858fd2e 100644
--- a/knp/base-framework/impl/visualizer/visualize_network.cpp
+++ b/knp/base-framework/impl/visualizer/visualize_network.cpp
@@ -159,6 +159,8 @@ AdjacencyList build_adjacency_list(const NetworkGraph &graph)
     adj_list.resize(graph.nodes_.size() + 1);
     for (const auto &edge : graph.edges_)
     {
+        // There is no node for a target population which is not in the network.
+        if (edge.index_to_ < 0) continue;
         int index = edge.index_from_;
         if (index < 0) index = static_cast<int>(graph.nodes_.size());
         adj_list[index].push_back(edge.index_to_);
-- 
2.43.0


From 4ba62c8f7d9d0c17376a6a35269f3d718511ef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:03 +0000
Subject: [PATCH 51/65] fix: names of the drawn nodes of a subgraph

---
 knp/base-framework/impl/visualizer/visualize_network.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/visualizer/visualize_network.cpp b/knp/base-framework/impl/visualizer/visualize_network.cpp
index 858fd2e..36520b5 100644
--- a/knp/base-framework/impl/visualizer/visualize_network.cpp
+++ b/knp/base-framework/impl/visualizer/visualize_network.cpp
@@ -270,7 +270,7 @@ cv::Mat draw_annotated_subgraph(
         cv::circle(
             out_img, {static_cast<int>(point.x), static_cast<int>(point.y)}, params.node_radius, params.node_color, -1);
         cv::Point2i text_start = point;
-        std::string name = graph.nodes_[i].name_;
+        std::string name = graph.nodes_[nodes[i]].name_;
         int baseline = 0;
         auto text_size = cv::getTextSize(name, cv::FONT_HERSHEY_SIMPLEX, 0.7, 2, &baseline);
         text_start.x = std::max(params.text_margin, text_start.x - text_size.width / 2);
-- 
2.43.0


From 9a4ff81574de56934742d4b0aea9eb1f9af072d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:03 +0000
Subject: [PATCH 52/65] fix: layout of a subgraph with edges to nodes outside
 of it

---
 knp/base-framework/impl/visualizer/graph_physics.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/visualizer/graph_physics.cpp b/knp/base-framework/impl/visualizer/graph_physics.cpp
index e8c36f8..7d4cc18 100644
--- a/knp/base-framework/impl/visualizer/graph_physics.cpp
+++ b/knp/base-framework/impl/visualizer/graph_physics.cpp
@@ -44,7 +44,12 @@ VisualGraph::VisualGraph(const std::vector<int> &nodes, const std::vector<std::v
     for (auto &edge : edges_mat_) edge.resize(nodes.size());
     for (size_t i = 0; i < nodes.size(); ++i)
     {
-        for (size_t index : adj_list[points_[i].index_]) edges_mat_[i][point_by_original_index[index]] = true;
+        for (size_t index : adj_list[points_[i].index_])
+        {
+            // Nodes outside of the subgraph have no points.
+            const auto point_iter = point_by_original_index.find(index);
+            if (point_iter != point_by_original_index.end()) edges_mat_[i][point_iter->second] = true;
+        }
     }
 }
 
-- 
2.43.0


From 96d56b1a3b3ee0edbe6b280864406efb3264c70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:51 +0000
Subject: [PATCH 53/65] fix: names of the drawn nodes do not leave the image on
 the right

---
 knp/base-framework/impl/visualizer/visualize_network.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/visualizer/visualize_network.cpp b/knp/base-framework/impl/visualizer/visualize_network.cpp
index 36520b5..cbbd427 100644
--- a/knp/base-framework/impl/visualizer/visualize_network.cpp
+++ b/knp/base-framework/impl/visualizer/visualize_network.cpp
@@ -274,7 +274,7 @@ cv::Mat draw_annotated_subgraph(
         int baseline = 0;
         auto text_size = cv::getTextSize(name, cv::FONT_HERSHEY_SIMPLEX, 0.7, 2, &baseline);
         text_start.x = std::max(params.text_margin, text_start.x - text_size.width / 2);
-        if (text_start.x + text_size.width / 2 > img_size.width - params.text_margin)
+        if (text_start.x + text_size.width > img_size.width - params.text_margin)
             text_start.x = img_size.width - text_size.width - params.text_margin;
         text_start.y += params.node_radius + params.text_margin + text_size.height;
         if (text_start.y > img_size.height) text_start.y = point.y - params.node_radius - params.text_margin;
-- 
2.43.0


From 8d616aec8c802f7fe9e56d0ce377b07f0b6d2feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:45 +0000
Subject: [PATCH 54/65] fix: a network without projections or without
 populations can be saved

---
 knp/base-framework/impl/sonata/save_network.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/base-framework/impl/sonata/save_network.cpp b/knp/base-framework/impl/sonata/save_network.cpp
index a1564cf..94eece2 100644
--- a/knp/base-framework/impl/sonata/save_network.cpp
+++ b/knp/base-framework/impl/sonata/save_network.cpp
@@ -87,7 +87,7 @@ std::string make_projections_list(const Network &network)
             },
             *iter);
     }
-    result.resize(result.size() - 1);  // Remove last comma.
+    if (!result.empty()) result.pop_back();  // Remove last comma.
     return result;
 }
 
@@ -105,7 +105,7 @@ std::string make_populations_list(const Network &network)
             },
             *iter);
     }
-    result.resize(result.size() - 1);  // Remove last comma.
+    if (!result.empty()) result.pop_back();  // Remove last comma.
     return result;
 }
 
-- 
2.43.0


From 8b15d29444c06e0f9b7f872bab56e73040a41f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:39 +0000
Subject: [PATCH 55/65] fix: tables of types of a saved network list every type
 once

---
 .../impl/sonata/types/type_id_defines.h       | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/knp/base-framework/impl/sonata/types/type_id_defines.h b/knp/base-framework/impl/sonata/types/type_id_defines.h
index b967e69..7cd1c72 100644
--- a/knp/base-framework/impl/sonata/types/type_id_defines.h
+++ b/knp/base-framework/impl/sonata/types/type_id_defines.h
@@ -4,18 +4,18 @@
  * @kaspersky_support A. Vartenkov
  * @date 22.03.2024
  * @license Apache 2.0
- * @copyright © 2024 AO Kaspersky Lab
- *
- * Licensed under the Apache License, Version 2.0 (the "License");
- * you may not use this file except in compliance with the License.
- * You may obtain a copy of the License at
- *
- * http://www.apache.org/licenses/LICENSE-2.0
- *
- * Unless required by applicable law or agreed to in writing, software
- * distributed under the License is distributed on an "AS IS" BASIS,
- * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
- * See the License for the specific language governing permissions and
+ * @copyright © 2024 AO Kaspersky Lab
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ * http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
  * limitations under the License.
  */
 
@@ -70,6 +70,7 @@ void add_neuron_type_to_csv(const fs::path &csv_path)
         csv_file.set_header(node_file_header);
         csv_file.add_row(type_row);
         save_csv_content(csv_file, csv_path);
+        return;
     }
 
     // File already exists, load it.
@@ -84,7 +85,7 @@ void add_neuron_type_to_csv(const fs::path &csv_path)
                 "Could not find column \"" + column_name + "\" in file \"" + csv_path.string() + "\".");
     }
     // Header is okay, check if type exists already.
-    size_t height = csv_file.get_rc_size().first - 1;
+    size_t height = csv_file.get_rc_size().first;
     for (size_t row_id = 0; row_id < height; ++row_id)
     {
         if (csv_file.get_value<int>(row_id, "node_type_id") == get_neuron_type_id<Neuron>())
@@ -114,7 +115,7 @@ void add_synapse_type_to_csv(const fs::path &csv_path)
                     "Could not find column \"" + column_name + "\" in file \"" + csv_path.string() + "\".");
         }
         // Header is okay, check if type exists already.
-        size_t height = csv_file.get_rc_size().first - 1;
+        size_t height = csv_file.get_rc_size().first;
         for (size_t row_id = 0; row_id < height; ++row_id)
         {
             int type_id = csv_file.get_value<int>(row_id, "edge_type_id");
-- 
2.43.0


From 956ce02623b912a5f26f632005917361c685cef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:39 +0000
Subject: [PATCH 56/65] fix: saved LIF neurons keep their potential reset value

---
 knp/base-framework/impl/sonata/types/lif_neuron.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knp/base-framework/impl/sonata/types/lif_neuron.cpp b/knp/base-framework/impl/sonata/types/lif_neuron.cpp
index 0f9ea84..d549e54 100644
--- a/knp/base-framework/impl/sonata/types/lif_neuron.cpp
+++ b/knp/base-framework/impl/sonata/types/lif_neuron.cpp
@@ -49,6 +49,7 @@ void save_static(const core::Population<neuron_traits::LIFNeuron> &population, H
     SPDLOG_TRACE("Saving LIF neurons static parameters.");
     PUT_NEURON_TO_DATASET(population, activation_threshold_, group);
     PUT_NEURON_TO_DATASET(population, leak_coefficient_, group);
+    PUT_NEURON_TO_DATASET(population, potential_reset_value_, group);
     PUT_NEURON_TO_DATASET(population, refract_period_, group);
 }
 
@@ -80,6 +81,7 @@ void load_static_parameters(
     const size_t group_size = target.size();
     LOAD_NEURONS_PARAMETER(target, neuron_traits::LIFNeuron, activation_threshold_, group0, group_size);
     LOAD_NEURONS_PARAMETER(target, neuron_traits::LIFNeuron, leak_coefficient_, group0, group_size);
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::LIFNeuron, potential_reset_value_, group0, group_size);
     LOAD_NEURONS_PARAMETER(target, neuron_traits::LIFNeuron, refract_period_, group0, group_size);
 }
 
-- 
2.43.0


From 84f1a957f99929b719b04dcbf7fa95e228da8275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:39 +0000
Subject: [PATCH 57/65] fix: saved AltAI-LIF neurons keep their dynamic
 parameters

---
 knp/base-framework/impl/sonata/types/altai_lif_neuron.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/knp/base-framework/impl/sonata/types/altai_lif_neuron.cpp b/knp/base-framework/impl/sonata/types/altai_lif_neuron.cpp
index df1121d..d41020f 100644
--- a/knp/base-framework/impl/sonata/types/altai_lif_neuron.cpp
+++ b/knp/base-framework/impl/sonata/types/altai_lif_neuron.cpp
@@ -64,6 +64,10 @@ void save_dynamic(const core::Population<neuron_traits::AltAILIF> &population, H
     SPDLOG_TRACE("Saving AltAI-LIF neurons dynamic parameters.");
     auto dyn_group = group0.createGroup(dynamic_subgroup_name);
     PUT_NEURON_TO_DATASET(population, potential_, dyn_group);
+    PUT_NEURON_TO_DATASET(population, pre_impact_potential_, dyn_group);
+    PUT_NEURON_TO_DATASET(population, dopamine_value_, dyn_group);
+    PUT_NEURON_TO_DATASET(population, additional_threshold_, dyn_group);
+    PUT_NEURON_TO_DATASET(population, activity_time_, dyn_group);
 }
 
 
@@ -102,6 +106,10 @@ void load_dynamic_parameters(
     const size_t group_size = target.size();
     auto dyn_group = group0.getGroup(dynamic_subgroup_name);
     LOAD_NEURONS_PARAMETER(target, neuron_traits::AltAILIF, potential_, dyn_group, group_size);
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::AltAILIF, pre_impact_potential_, dyn_group, group_size);
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::AltAILIF, dopamine_value_, dyn_group, group_size);
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::AltAILIF, additional_threshold_, dyn_group, group_size);
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::AltAILIF, activity_time_, dyn_group, group_size);
 }
 
 
-- 
2.43.0


From 6376b0f54aac2a8852248697836acfc844c2aca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:39 +0000
Subject: [PATCH 58/65] fix: saved AltAI-LIF neurons with the synaptic resource
 rule keep their dynamic parameters

---
 .../impl/sonata/types/resource_altai_lif_neuron.cpp         | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/knp/base-framework/impl/sonata/types/resource_altai_lif_neuron.cpp b/knp/base-framework/impl/sonata/types/resource_altai_lif_neuron.cpp
index 590fb0b..3bb2c75 100644
--- a/knp/base-framework/impl/sonata/types/resource_altai_lif_neuron.cpp
+++ b/knp/base-framework/impl/sonata/types/resource_altai_lif_neuron.cpp
@@ -108,6 +108,9 @@ void add_population_to_h5<core::Population<knp::neuron_traits::SynapticResourceS
     // Dynamic parameters.
     // They describe the current neuron state. They can change at inference.
     auto dynamic_group = group.createGroup("dynamics_params");
+    PUT_NEURON_TO_DATASET(population, potential_, dynamic_group);
+    PUT_NEURON_TO_DATASET(population, pre_impact_potential_, dynamic_group);
+    PUT_NEURON_TO_DATASET(population, activity_time_, dynamic_group);
     PUT_NEURON_TO_DATASET(population, dopamine_value_, dynamic_group);
     PUT_NEURON_TO_DATASET(population, additional_threshold_, dynamic_group);
 }
@@ -172,6 +175,9 @@ load_population<neuron_traits::SynapticResourceSTDPAltAILIFNeuron>(
 
     // Dynamic parameters.
     auto dyn_group = group.getGroup("dynamics_params");
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::AltAILIF, potential_, dyn_group, group_size);
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::AltAILIF, pre_impact_potential_, dyn_group, group_size);
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::AltAILIF, activity_time_, dyn_group, group_size);
     LOAD_NEURONS_PARAMETER(target, neuron_traits::AltAILIF, dopamine_value_, dyn_group, group_size);
     LOAD_NEURONS_PARAMETER(target, neuron_traits::AltAILIF, additional_threshold_, dyn_group, group_size);
 
-- 
2.43.0


From 7a21e6d290a5a2100f2ce93d3d7d60d75682aa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:39 +0000
Subject: [PATCH 59/65] fix: saved neurons with the synaptic resource rule keep
 their threshold coefficient

---
 .../impl/sonata/types/resource_altai_lif_neuron.cpp             | 2 ++
 knp/base-framework/impl/sonata/types/resource_blifat_neuron.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/knp/base-framework/impl/sonata/types/resource_altai_lif_neuron.cpp b/knp/base-framework/impl/sonata/types/resource_altai_lif_neuron.cpp
index 3bb2c75..64f9083 100644
--- a/knp/base-framework/impl/sonata/types/resource_altai_lif_neuron.cpp
+++ b/knp/base-framework/impl/sonata/types/resource_altai_lif_neuron.cpp
@@ -83,6 +83,7 @@ void add_population_to_h5<core::Population<knp::neuron_traits::SynapticResourceS
     PUT_NEURON_TO_DATASET(population, potential_leak_, group);
     PUT_NEURON_TO_DATASET(population, potential_reset_value_, group);
     // Synaptic rule parameters.
+    PUT_NEURON_TO_DATASET(population, synapse_sum_threshold_coefficient_, group);
     PUT_NEURON_TO_DATASET(population, free_synaptic_resource_, group);
     PUT_NEURON_TO_DATASET(population, synaptic_resource_threshold_, group);
     PUT_NEURON_TO_DATASET(population, resource_drain_coefficient_, group);
@@ -151,6 +152,7 @@ load_population<neuron_traits::SynapticResourceSTDPAltAILIFNeuron>(
     LOAD_NEURONS_PARAMETER_DEF(target, potential_leak_, group, group_size, default_params);
     LOAD_NEURONS_PARAMETER_DEF(target, potential_reset_value_, group, group_size, default_params);
     // Synaptic rule parameters.
+    LOAD_NEURONS_PARAMETER_DEF(target, synapse_sum_threshold_coefficient_, group, group_size, default_params);
     LOAD_NEURONS_PARAMETER_DEF(target, free_synaptic_resource_, group, group_size, default_params);
     LOAD_NEURONS_PARAMETER_DEF(target, synaptic_resource_threshold_, group, group_size, default_params);
     LOAD_NEURONS_PARAMETER_DEF(target, resource_drain_coefficient_, group, group_size, default_params);
diff --git a/knp/base-framework/impl/sonata/types/resource_blifat_neuron.cpp b/knp/base-framework/impl/sonata/types/resource_blifat_neuron.cpp
index b487cbc..9582746 100644
--- a/knp/base-framework/impl/sonata/types/resource_blifat_neuron.cpp
+++ b/knp/base-framework/impl/sonata/types/resource_blifat_neuron.cpp
@@ -94,6 +94,7 @@ void add_population_to_h5<core::Population<knp::neuron_traits::SynapticResourceS
 
     // Synaptic rule parameters.
     // TODO: Do we need to split them into static-dynamic as well? Probably not.
+    PUT_NEURON_TO_DATASET(population, synapse_sum_threshold_coefficient_, group0);
     PUT_NEURON_TO_DATASET(population, free_synaptic_resource_, group0);
     PUT_NEURON_TO_DATASET(population, synaptic_resource_threshold_, group0);
     PUT_NEURON_TO_DATASET(population, resource_drain_coefficient_, group0);
@@ -172,6 +173,7 @@ load_population<neuron_traits::SynapticResourceSTDPBLIFATNeuron>(
     LOAD_NEURONS_PARAMETER_DEF(target, potential_reset_value_, group, group_size, default_params);
     LOAD_NEURONS_PARAMETER_DEF(target, min_potential_, group, group_size, default_params);
     // Synaptic rule parameters.
+    LOAD_NEURONS_PARAMETER_DEF(target, synapse_sum_threshold_coefficient_, group, group_size, default_params);
     LOAD_NEURONS_PARAMETER_DEF(target, free_synaptic_resource_, group, group_size, default_params);
     LOAD_NEURONS_PARAMETER_DEF(target, synaptic_resource_threshold_, group, group_size, default_params);
     LOAD_NEURONS_PARAMETER_DEF(target, resource_drain_coefficient_, group, group_size, default_params);
-- 
2.43.0


From 8335b84fbffc39594ec7c22e3c4faa99e37a858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:39 +0000
Subject: [PATCH 60/65] fix: loaded BLIFAT neurons get their additional
 threshold and stochastic stimulation back

---
 knp/base-framework/impl/sonata/types/blifat_neuron.cpp        | 4 ++++
 .../impl/sonata/types/resource_blifat_neuron.cpp              | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/knp/base-framework/impl/sonata/types/blifat_neuron.cpp b/knp/base-framework/impl/sonata/types/blifat_neuron.cpp
index 59efd1b..801cbf0 100644
--- a/knp/base-framework/impl/sonata/types/blifat_neuron.cpp
+++ b/knp/base-framework/impl/sonata/types/blifat_neuron.cpp
@@ -78,6 +78,7 @@ void save_dynamic(const core::Population<knp::neuron_traits::BLIFATNeuron> &popu
     PUT_NEURON_TO_DATASET(population, bursting_phase_, dynamic_group);
     PUT_NEURON_TO_DATASET(population, total_blocking_period_, dynamic_group);
     PUT_NEURON_TO_DATASET(population, dopamine_value_, dynamic_group);
+    PUT_NEURON_TO_DATASET(population, additional_threshold_, dynamic_group);
     PUT_NEURON_TO_DATASET(population, random_number_generator_state_, dynamic_group);
 }
 
@@ -113,6 +114,7 @@ void load_static_parameters(
     LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, absolute_refractory_period_, group0, group_size);
     LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, potential_reset_value_, group0, group_size);
     LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, min_potential_, group0, group_size);
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, stochastic_stimulation_, group0, group_size);
 }
 
 
@@ -127,6 +129,8 @@ void load_dynamic_parameters(
     LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, bursting_phase_, dyn_group, group_size);
     LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, total_blocking_period_, dyn_group, group_size);
     LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, dopamine_value_, dyn_group, group_size);
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, additional_threshold_, dyn_group, group_size);
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, random_number_generator_state_, dyn_group, group_size);
 }
 
 
diff --git a/knp/base-framework/impl/sonata/types/resource_blifat_neuron.cpp b/knp/base-framework/impl/sonata/types/resource_blifat_neuron.cpp
index 9582746..68f88b2 100644
--- a/knp/base-framework/impl/sonata/types/resource_blifat_neuron.cpp
+++ b/knp/base-framework/impl/sonata/types/resource_blifat_neuron.cpp
@@ -172,6 +172,7 @@ load_population<neuron_traits::SynapticResourceSTDPBLIFATNeuron>(
     LOAD_NEURONS_PARAMETER_DEF(target, absolute_refractory_period_, group, group_size, default_params);
     LOAD_NEURONS_PARAMETER_DEF(target, potential_reset_value_, group, group_size, default_params);
     LOAD_NEURONS_PARAMETER_DEF(target, min_potential_, group, group_size, default_params);
+    LOAD_NEURONS_PARAMETER_DEF(target, stochastic_stimulation_, group, group_size, default_params);
     // Synaptic rule parameters.
     LOAD_NEURONS_PARAMETER_DEF(target, synapse_sum_threshold_coefficient_, group, group_size, default_params);
     LOAD_NEURONS_PARAMETER_DEF(target, free_synaptic_resource_, group, group_size, default_params);
@@ -205,6 +206,7 @@ load_population<neuron_traits::SynapticResourceSTDPBLIFATNeuron>(
     LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, total_blocking_period_, dyn_group, group_size);
     LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, dopamine_value_, dyn_group, group_size);
     LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, additional_threshold_, dyn_group, group_size);
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, random_number_generator_state_, dyn_group, group_size);
 
     const knp::core::UID uid{boost::lexical_cast<boost::uuids::uuid>(population_name)};
     return core::Population<ResourceNeuron>(
-- 
2.43.0


From 5d3dd496cef2f0df2df0c8a3bf261f547c89f4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:03 +0000
Subject: [PATCH 61/65] fix: a saved network with empty populations or
 projections can be loaded

---
 knp/base-framework/impl/sonata/load_network.cpp   | 15 +++++++++++----
 .../impl/sonata/types/delta_synapse.cpp           |  1 +
 .../sonata/types/resource_altai_lif_neuron.cpp    |  2 ++
 .../impl/sonata/types/resource_blifat_neuron.cpp  |  2 ++
 .../impl/sonata/types/resource_delta_synapse.cpp  |  1 +
 .../impl/sonata/types/saving_initialization.h     |  2 ++
 6 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/knp/base-framework/impl/sonata/load_network.cpp b/knp/base-framework/impl/sonata/load_network.cpp
index cb21d6d..3775d9d 100644
--- a/knp/base-framework/impl/sonata/load_network.cpp
+++ b/knp/base-framework/impl/sonata/load_network.cpp
@@ -60,6 +60,15 @@ std::vector<std::string> get_projection_names(const HighFive::File &file)
 }
 
 
+// Get type of neurons or synapses. An empty population or projection has no elements to get it from.
+int read_type_id(const HighFive::Group &group, const std::string &dataset_name)
+{
+    const auto type_ids = group.getDataSet(dataset_name).read<std::vector<int>>();
+    if (!type_ids.empty()) return type_ids[0];  // One type only.
+    return group.getAttribute(dataset_name).read<int>();
+}
+
+
 std::vector<core::AllProjectionsVariant> load_projections(const fs::path &proj_h5_file)
 {
     if (!fs::is_regular_file(proj_h5_file))
@@ -72,8 +81,7 @@ std::vector<core::AllProjectionsVariant> load_projections(const fs::path &proj_h
     for (size_t i = 0; i < num_projections; ++i)
     {
         std::string proj_name = group.getObjectName(i);
-        int proj_type =
-            group.getGroup(proj_name).getDataSet("edge_type_id").read<std::vector<int>>()[0];  // One type only.
+        int proj_type = read_type_id(group.getGroup(proj_name), "edge_type_id");
         // TODO: Check if type is in type_file.
         if (proj_type == get_synapse_type_id<synapse_traits::DeltaSynapse>())
             result.emplace_back(load_projection<synapse_traits::DeltaSynapse>(group, proj_name));
@@ -100,8 +108,7 @@ std::vector<core::AllPopulationsVariant> load_populations(const fs::path &pop_h5
     for (size_t i = 0; i < num_populations; ++i)
     {
         const std::string proj_name = group.getObjectName(i);
-        const int neuron_type =
-            group.getGroup(proj_name).getDataSet("node_type_id").read<std::vector<int>>()[0];  // One type only.
+        const int neuron_type = read_type_id(group.getGroup(proj_name), "node_type_id");
         // Check if type is in type_file.
         if (neuron_type == get_neuron_type_id<neuron_traits::BLIFATNeuron>())
             result.emplace_back(load_population<neuron_traits::BLIFATNeuron>(group, proj_name));
diff --git a/knp/base-framework/impl/sonata/types/delta_synapse.cpp b/knp/base-framework/impl/sonata/types/delta_synapse.cpp
index 27349dc..2df712a 100644
--- a/knp/base-framework/impl/sonata/types/delta_synapse.cpp
+++ b/knp/base-framework/impl/sonata/types/delta_synapse.cpp
@@ -146,6 +146,7 @@ void add_projection_to_h5<core::Projection<synapse_traits::DeltaSynapse>>(
     proj_group.createDataSet("edge_group_id", std::vector(projection.size(), 0));
     proj_group.createDataSet(
         "edge_type_id", std::vector(projection.size(), get_synapse_type_id<synapse_traits::DeltaSynapse>()));
+    proj_group.createAttribute("edge_type_id", get_synapse_type_id<synapse_traits::DeltaSynapse>());
 
     std::vector<uint64_t> group_index;
     group_index.reserve(projection.size());
diff --git a/knp/base-framework/impl/sonata/types/resource_altai_lif_neuron.cpp b/knp/base-framework/impl/sonata/types/resource_altai_lif_neuron.cpp
index 64f9083..68c34c3 100644
--- a/knp/base-framework/impl/sonata/types/resource_altai_lif_neuron.cpp
+++ b/knp/base-framework/impl/sonata/types/resource_altai_lif_neuron.cpp
@@ -69,6 +69,8 @@ void add_population_to_h5<core::Population<knp::neuron_traits::SynapticResourceS
         "node_type_id",
         std::vector<size_t>(
             population.size(), get_neuron_type_id<neuron_traits::SynapticResourceSTDPAltAILIFNeuron>()));
+    population_group.createAttribute(
+        "node_type_id", get_neuron_type_id<neuron_traits::SynapticResourceSTDPAltAILIFNeuron>());
     auto group = population_group.createGroup("0");
 
     // TODO: Need to check if all parameters are the same. If not, then save them into h5.
diff --git a/knp/base-framework/impl/sonata/types/resource_blifat_neuron.cpp b/knp/base-framework/impl/sonata/types/resource_blifat_neuron.cpp
index 68f88b2..1caba6e 100644
--- a/knp/base-framework/impl/sonata/types/resource_blifat_neuron.cpp
+++ b/knp/base-framework/impl/sonata/types/resource_blifat_neuron.cpp
@@ -70,6 +70,8 @@ void add_population_to_h5<core::Population<knp::neuron_traits::SynapticResourceS
     population_group.createDataSet(
         "node_type_id",
         std::vector<size_t>(population.size(), get_neuron_type_id<neuron_traits::SynapticResourceSTDPBLIFATNeuron>()));
+    population_group.createAttribute(
+        "node_type_id", get_neuron_type_id<neuron_traits::SynapticResourceSTDPBLIFATNeuron>());
     auto group0 = population_group.createGroup("0");
 
     // TODO: Need to check if all parameters are the same. If not, then save them into h5.
diff --git a/knp/base-framework/impl/sonata/types/resource_delta_synapse.cpp b/knp/base-framework/impl/sonata/types/resource_delta_synapse.cpp
index 82a0d7a..2740479 100644
--- a/knp/base-framework/impl/sonata/types/resource_delta_synapse.cpp
+++ b/knp/base-framework/impl/sonata/types/resource_delta_synapse.cpp
@@ -108,6 +108,7 @@ void add_projection_to_h5<core::Projection<ResourceDeltaSynapse>>(
     proj_group.createDataSet("edge_group_id", std::vector(projection.size(), 0));
     proj_group.createDataSet(
         "edge_type_id", std::vector(projection.size(), get_synapse_type_id<ResourceDeltaSynapse>()));
+    proj_group.createAttribute("edge_type_id", get_synapse_type_id<ResourceDeltaSynapse>());
 
     std::vector<uint64_t> group_index;
     group_index.reserve(projection.size());
diff --git a/knp/base-framework/impl/sonata/types/saving_initialization.h b/knp/base-framework/impl/sonata/types/saving_initialization.h
index af63fd9..cf90449 100644
--- a/knp/base-framework/impl/sonata/types/saving_initialization.h
+++ b/knp/base-framework/impl/sonata/types/saving_initialization.h
@@ -59,6 +59,8 @@ HighFive::Group initialize_adding_population(const Population &population, HighF
     population_group.createDataSet(
         "node_type_id",
         std::vector<size_t>(population.size(), get_neuron_type_id<typename Population::PopulationNeuronType>()));
+    population_group.createAttribute(
+        "node_type_id", get_neuron_type_id<typename Population::PopulationNeuronType>());
     return population_group.createGroup("0");
 }
 
-- 
2.43.0


From ee1535863d94c375b6d7f7afcc53b9e3f4b11e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:01 +0000
Subject: [PATCH 62/65] fix: loaded spike messages have the steps they were
 saved with

---
 .../storage/native/data_storage_common.cpp    | 18 ++++++++++--
 .../impl/storage/native/data_storage_common.h | 28 +++++++++----------
 .../impl/storage/native/data_storage_hdf5.cpp |  8 +++---
 .../impl/storage/native/data_storage_json.cpp |  4 +--
 4 files changed, 35 insertions(+), 23 deletions(-)

diff --git a/knp/base-framework/impl/storage/native/data_storage_common.cpp b/knp/base-framework/impl/storage/native/data_storage_common.cpp
index ca40964..dee35b0 100644
--- a/knp/base-framework/impl/storage/native/data_storage_common.cpp
+++ b/knp/base-framework/impl/storage/native/data_storage_common.cpp
@@ -23,6 +23,8 @@
 
 #include <knp/core/messaging/messaging.h>
 
+#include <algorithm>
+#include <limits>
 #include <unordered_map>
 #include <utility>
 #include <vector>
@@ -30,16 +32,26 @@
 
 namespace knp::framework::io::storage::native
 {
+// Timestamps are products of steps and time per step, so their ratio can be slightly less than the step.
+knp::core::Step timestamp_to_step(double timestamp, double time_per_step)
+{
+    constexpr double max_error = 0.01;
+    const double ratio = timestamp / time_per_step;
+    const double error = std::min(max_error, ratio * std::numeric_limits<float>::epsilon());
+    return static_cast<knp::core::Step>(ratio + error);
+}
+
+
 std::vector<knp::core::messaging::SpikeMessage> convert_node_time_arrays_to_messages(
-    const std::vector<int64_t> &nodes, const std::vector<float> &timestamps, const knp::core::UID &uid,
-    float time_per_step)
+    const std::vector<int64_t> &nodes, const std::vector<double> &timestamps, const knp::core::UID &uid,
+    double time_per_step)
 {
     if (nodes.size() != timestamps.size()) throw std::runtime_error("Different array sizes: nodes and timestamps.");
     using Message = knp::core::messaging::SpikeMessage;
     std::unordered_map<knp::core::Step, Message> message_map;  // This is a result buffer.
     for (size_t i = 0; i < timestamps.size(); ++i)
     {
-        auto step = static_cast<knp::core::Step>(timestamps[i] / time_per_step);
+        const auto step = timestamp_to_step(timestamps[i], time_per_step);
         auto index = nodes[i];
         auto iterator = message_map.find(step);
         if (iterator == message_map.end())
diff --git a/knp/base-framework/impl/storage/native/data_storage_common.h b/knp/base-framework/impl/storage/native/data_storage_common.h
index 0f29501..3c9f598 100644
--- a/knp/base-framework/impl/storage/native/data_storage_common.h
+++ b/knp/base-framework/impl/storage/native/data_storage_common.h
@@ -4,18 +4,18 @@
  * @kaspersky_support An. Vartenkov
  * @date 24.04.2024
  * @license Apache 2.0
- * @copyright © 2024 AO Kaspersky Lab
- *
- * Licensed under the Apache License, Version 2.0 (the "License");
- * you may not use this file except in compliance with the License.
- * You may obtain a copy of the License at
- *
- * http://www.apache.org/licenses/LICENSE-2.0
- *
- * Unless required by applicable law or agreed to in writing, software
- * distributed under the License is distributed on an "AS IS" BASIS,
- * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
- * See the License for the specific language governing permissions and
+ * @copyright © 2024 AO Kaspersky Lab
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ * http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
  * limitations under the License.
  */
 #pragma once
@@ -32,6 +32,6 @@ constexpr std::array<int64_t, 2> VERSION{0, 1};
 
 
 std::vector<knp::core::messaging::SpikeMessage> convert_node_time_arrays_to_messages(
-    const std::vector<int64_t> &nodes, const std::vector<float> &timestamps, const knp::core::UID &uid,
-    float time_per_step);
+    const std::vector<int64_t> &nodes, const std::vector<double> &timestamps, const knp::core::UID &uid,
+    double time_per_step);
 }  // namespace knp::framework::io::storage::native
diff --git a/knp/base-framework/impl/storage/native/data_storage_hdf5.cpp b/knp/base-framework/impl/storage/native/data_storage_hdf5.cpp
index 539652a..bc9e1b5 100644
--- a/knp/base-framework/impl/storage/native/data_storage_hdf5.cpp
+++ b/knp/base-framework/impl/storage/native/data_storage_hdf5.cpp
@@ -122,7 +122,7 @@ KNP_DECLSPEC std::vector<core::messaging::SpikeMessage> load_messages_from_h5(
         throw std::runtime_error("Different number of elements in node and timestamp datasets.");
 
     // Reading data from datasets to vectors.
-    std::vector<float> timestamps(timestamps_dataset.getElementCount());
+    std::vector<double> timestamps(timestamps_dataset.getElementCount());
     timestamps_dataset.read(timestamps);
     std::vector<int64_t> nodes(node_dataset.getElementCount());
     node_dataset.read(nodes);
@@ -148,7 +148,7 @@ KNP_DECLSPEC void save_messages_to_h5(
     size_t total_size = std::accumulate(messages.begin(), messages.end(), size_t{0}, add_size);
 
     // Reserving dataset vectors.
-    std::vector<float> timestamps;
+    std::vector<double> timestamps;
     std::vector<int64_t> nodes;
     timestamps.reserve(total_size);
     nodes.reserve(total_size);
@@ -165,8 +165,8 @@ KNP_DECLSPEC void save_messages_to_h5(
     // Forming dataset vectors.
     for (const auto &msg : sorted_messages)
     {
-        const std::vector<float> values(
-            msg.neuron_indexes_.size(), static_cast<float>(msg.header_.send_time_) * time_per_step);
+        const std::vector<double> values(
+            msg.neuron_indexes_.size(), static_cast<double>(msg.header_.send_time_) * time_per_step);
         timestamps.insert(timestamps.end(), values.begin(), values.end());
         nodes.insert(nodes.end(), msg.neuron_indexes_.begin(), msg.neuron_indexes_.end());
     }
diff --git a/knp/base-framework/impl/storage/native/data_storage_json.cpp b/knp/base-framework/impl/storage/native/data_storage_json.cpp
index 7cb3bbc..1798712 100644
--- a/knp/base-framework/impl/storage/native/data_storage_json.cpp
+++ b/knp/base-framework/impl/storage/native/data_storage_json.cpp
@@ -222,13 +222,13 @@ auto read_timestamps(const rapidjson::Document::Object &spikes_group)
         throw std::runtime_error("No \"value\" array in \"timestamps\" group.");
     const auto &timestamps_array = timestamps_group["value"].GetArray();
 
-    std::vector<float> timestamps;
+    std::vector<double> timestamps;
     timestamps.reserve(timestamps_array.Size());
     // No const reference val possible.
     for (auto val_iter = timestamps_array.Begin(); val_iter != timestamps_array.End(); ++val_iter)
     {
         // std::transform isn't compiled by MSVC.
-        timestamps.push_back(static_cast<float>(val_iter->GetDouble()));  // cppcheck-suppress useStlAlgorithm
+        timestamps.push_back(val_iter->GetDouble());  // cppcheck-suppress useStlAlgorithm
     }
 
     return timestamps;
-- 
2.43.0


From 9c3bb6b7d1c02b971141704bae2a96ae581cadad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:01 +0000
Subject: [PATCH 63/65] fix: a longer version of an HDF5 file is not compared
 past the end

---
 knp/base-framework/impl/storage/native/data_storage_hdf5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/storage/native/data_storage_hdf5.cpp b/knp/base-framework/impl/storage/native/data_storage_hdf5.cpp
index bc9e1b5..4a8b789 100644
--- a/knp/base-framework/impl/storage/native/data_storage_hdf5.cpp
+++ b/knp/base-framework/impl/storage/native/data_storage_hdf5.cpp
@@ -66,7 +66,7 @@ bool check_version(const HighFive::File &doc)
     if (!doc.hasAttribute("version")) return false;
     std::vector<int64_t> version;
     doc.getAttribute("version").read(version);
-    return std::equal(version.begin(), version.end(), VERSION.begin());
+    return std::equal(version.begin(), version.end(), VERSION.begin(), VERSION.end());
 }
 
 
-- 
2.43.0


From be75672a82e218db2fb6e6454303486a4020f228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:04 +0000
Subject: [PATCH 64/65] fix: indexes of neurons above 2147483647 are read from
 JSON files

---
 knp/base-framework/impl/storage/native/data_storage_json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/storage/native/data_storage_json.cpp b/knp/base-framework/impl/storage/native/data_storage_json.cpp
index 1798712..dc48b4f 100644
--- a/knp/base-framework/impl/storage/native/data_storage_json.cpp
+++ b/knp/base-framework/impl/storage/native/data_storage_json.cpp
@@ -204,7 +204,7 @@ auto read_nodes(const rapidjson::Document::Object &spikes_group)
     for (auto val_iter = nodes_array.Begin(); val_iter != nodes_array.End(); ++val_iter)
     {
         // std::transform isn't compiled by MSVC.
-        nodes.push_back(val_iter->GetInt());  // cppcheck-suppress useStlAlgorithm
+        nodes.push_back(val_iter->GetInt64());  // cppcheck-suppress useStlAlgorithm
     }
 
     return nodes;
-- 
2.43.0


From 4a0221f25afae3db26b3c927358abaa11dca7812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:04 +0000
Subject: [PATCH 65/65] fix: JSON files with values of other types are refused

---
 .../impl/storage/native/data_storage_json.cpp | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/knp/base-framework/impl/storage/native/data_storage_json.cpp b/knp/base-framework/impl/storage/native/data_storage_json.cpp
index dc48b4f..e60c00d 100644
--- a/knp/base-framework/impl/storage/native/data_storage_json.cpp
+++ b/knp/base-framework/impl/storage/native/data_storage_json.cpp
@@ -129,21 +129,27 @@ constexpr char whole_file_string[] =
 )--";
 
 
+bool is_named(const rapidjson::Value &group, const std::string &name)
+{
+    return group.IsObject() && group.HasMember("name") && group["name"].IsString() && group["name"].GetString() == name;
+}
+
+
 // clang-format off // No const operator[] for simdjson document, so no const parameter.
 bool is_json_has_magic(const rapidjson::Document &doc)  // cppcheck-suppress constParameterReference
 // clang-format on
 {
     const std::string magic = "magic";
-    if (!doc.HasMember("attributes")) return false;
+    if (!doc.HasMember("attributes") || !doc["attributes"].IsArray()) return false;
     const auto &attributes = doc["attributes"].GetArray();
 
     bool has_magic = false;
     for (auto group_iter = attributes.Begin(); group_iter != attributes.End(); ++group_iter)
     {
         const auto &group = *group_iter;
-        if (group.HasMember("name") && group["name"].GetString() == magic)
+        if (is_named(group, magic))
         {
-            if (group.HasMember("value") && group["value"].GetInt() != MAGIC_NUMBER) break;
+            if (group.HasMember("value") && (!group["value"].IsInt() || group["value"].GetInt() != MAGIC_NUMBER)) break;
             has_magic = true;
             break;
         }
@@ -158,14 +164,14 @@ bool is_correct_version(const rapidjson::Document &doc)  // cppcheck-suppress co
 {
     const std::string version_str = "version";
 
-    if (!doc.HasMember("attributes")) return false;
+    if (!doc.HasMember("attributes") || !doc["attributes"].IsArray()) return false;
     const auto &attributes = doc["attributes"].GetArray();
 
     for (auto group_iter = attributes.Begin(); group_iter != attributes.End(); ++group_iter)
     {
         const auto &group = *group_iter;
 
-        if (!group.HasMember("name") || group["name"].GetString() != version_str) continue;
+        if (!is_named(group, version_str)) continue;
         if (!group.HasMember("value") || !group["value"].IsArray()) return false;
 
         const auto &version_arr = group["value"].GetArray();
@@ -176,8 +182,9 @@ bool is_correct_version(const rapidjson::Document &doc)  // cppcheck-suppress co
 
         for (auto val_iter = version_arr.Begin(); val_iter != version_arr.End(); ++val_iter)
         {
+            if (!val_iter->IsInt64()) return false;
             // std::transform isn't compiled by MSVC.
-            version.push_back(val_iter->GetInt());  // cppcheck-suppress useStlAlgorithm
+            version.push_back(val_iter->GetInt64());  // cppcheck-suppress useStlAlgorithm
         }
 
         return std::equal(version.begin(), version.end(), VERSION.begin());
@@ -203,6 +210,7 @@ auto read_nodes(const rapidjson::Document::Object &spikes_group)
     // No const reference val possible.
     for (auto val_iter = nodes_array.Begin(); val_iter != nodes_array.End(); ++val_iter)
     {
+        if (!val_iter->IsInt64()) throw std::runtime_error("Node ID in JSON data file is not an integer number.");
         // std::transform isn't compiled by MSVC.
         nodes.push_back(val_iter->GetInt64());  // cppcheck-suppress useStlAlgorithm
     }
@@ -227,6 +235,7 @@ auto read_timestamps(const rapidjson::Document::Object &spikes_group)
     // No const reference val possible.
     for (auto val_iter = timestamps_array.Begin(); val_iter != timestamps_array.End(); ++val_iter)
     {
+        if (!val_iter->IsNumber()) throw std::runtime_error("Timestamp in JSON data file is not a number.");
         // std::transform isn't compiled by MSVC.
         timestamps.push_back(val_iter->GetDouble());  // cppcheck-suppress useStlAlgorithm
     }
@@ -241,6 +250,7 @@ KNP_DECLSPEC std::vector<core::messaging::SpikeMessage> load_messages_from_json(
     rapidjson::Document doc;
     rapidjson::IStreamWrapper isw{input_stream};
     if (doc.ParseStream(isw).HasParseError()) throw std::runtime_error("Cannot parse stream.");
+    if (!doc.IsObject()) throw std::runtime_error("Data file does not contain a JSON object.");
 
     if (!is_json_has_magic(doc))
     {
-- 
2.43.0

