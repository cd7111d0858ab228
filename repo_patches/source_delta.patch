From fdc0048cd1f5107137aa95c33a8f92df9075e70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 01/77] fix: do not add a start timestamp column to the
 caller's dataframe (DFG, temporal profile, eventually-follows)

---
 pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
index 795370c..ccd43ec 100644
--- a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
+++ b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
@@ -70,7 +70,7 @@ def get_dfg_graph(df, measure="frequency", activity_key="concept:name", case_id_
     if start_timestamp_key is None:
         start_timestamp_key = xes_constants.DEFAULT_START_TIMESTAMP_KEY
         if start_timestamp_key not in df.columns:
-            df[start_timestamp_key] = df[timestamp_key]
+            df = df.assign(**{start_timestamp_key: df[timestamp_key]})
         st_eq_ct = True
 
     # to increase the speed of the approaches reduce dataframe to case, activity (and possibly complete timestamp)
@@ -210,7 +210,7 @@ def get_partial_order_dataframe(df, start_timestamp_key=None, timestamp_key="tim
         start_timestamp_key = xes_constants.DEFAULT_START_TIMESTAMP_KEY
 
     if start_timestamp_key not in df:
-        df[start_timestamp_key] = df[timestamp_key]
+        df = df.assign(**{start_timestamp_key: df[timestamp_key]})
 
     # to increase the speed of the approaches reduce dataframe to case, activity (and possibly complete timestamp)
     # columns
@@ -293,7 +293,7 @@ def get_concurrent_events_dataframe(df, start_timestamp_key=None, timestamp_key=
     # to avoid retro-compatibility problems
     if start_timestamp_key is None:
         start_timestamp_key = xes_constants.DEFAULT_START_TIMESTAMP_KEY
-        df[start_timestamp_key] = df[timestamp_key]
+        df = df.assign(**{start_timestamp_key: df[timestamp_key]})
 
     # to get rows belonging to same case ID together, we need to sort on case ID
     if sort_caseid_required:
-- 
2.43.0


From dfe8a6818aace7ac13a3f1ae226ed8b0479c2200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 02/77] fix: prefix/suffix filters no longer write the
 temporary column into the caller's dataframe

---
 pm4py/algo/filtering/pandas/prefixes/prefix_filter.py | 2 +-
 pm4py/algo/filtering/pandas/suffixes/suffix_filter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/prefixes/prefix_filter.py b/pm4py/algo/filtering/pandas/prefixes/prefix_filter.py
index c66bb39..24fc546 100644
--- a/pm4py/algo/filtering/pandas/prefixes/prefix_filter.py
+++ b/pm4py/algo/filtering/pandas/prefixes/prefix_filter.py
@@ -80,7 +80,7 @@ def apply(df: pd.DataFrame, activity: str, parameters: Optional[Dict[Any, Any]]
     position_activity = position_activity.reset_index()[[case_id_key, index_in_trace_key]].to_dict("records")
     position_activity = {x[case_id_key]: x[index_in_trace_key] for x in position_activity}
 
-    df[temp_column] = df[case_id_key].map(position_activity)
+    df = df.assign(**{temp_column: df[case_id_key].map(position_activity)})
     if strict:
         df = df[df[index_in_trace_key] < df[temp_column]]
     else:
diff --git a/pm4py/algo/filtering/pandas/suffixes/suffix_filter.py b/pm4py/algo/filtering/pandas/suffixes/suffix_filter.py
index 729784e..c07dfbb 100644
--- a/pm4py/algo/filtering/pandas/suffixes/suffix_filter.py
+++ b/pm4py/algo/filtering/pandas/suffixes/suffix_filter.py
@@ -80,7 +80,7 @@ def apply(df: pd.DataFrame, activity: str, parameters: Optional[Dict[Any, Any]]
     position_activity = position_activity.reset_index()[[case_id_key, index_in_trace_key]].to_dict("records")
     position_activity = {x[case_id_key]: x[index_in_trace_key] for x in position_activity}
 
-    df[temp_column] = df[case_id_key].map(position_activity)
+    df = df.assign(**{temp_column: df[case_id_key].map(position_activity)})
     if strict:
         df = df[df[index_in_trace_key] > df[temp_column]]
     else:
-- 
2.43.0


From fc6f60e175e4f76c8ceb2d739f2e3451323b6a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 03/77] fix: describing a stream no longer reorders the
 caller's event stream

---
 pm4py/algo/querying/llm/abstractions/stream_to_descr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/querying/llm/abstractions/stream_to_descr.py b/pm4py/algo/querying/llm/abstractions/stream_to_descr.py
index 7694b00..40dcab6 100644
--- a/pm4py/algo/querying/llm/abstractions/stream_to_descr.py
+++ b/pm4py/algo/querying/llm/abstractions/stream_to_descr.py
@@ -59,7 +59,7 @@ def apply(log_obj: Union[EventLog, EventStream, pd.DataFrame], parameters: Optio
     response_header = exec_utils.get_param_value(Parameters.RESPONSE_HEADER, parameters, True)
     max_len = exec_utils.get_param_value(Parameters.MAX_LEN, parameters, constants.OPENAI_MAX_LEN)
 
-    event_stream.sort(key=lambda x: x[timestamp_key], reverse=True)
+    event_stream = sorted(event_stream, key=lambda x: x[timestamp_key], reverse=True)
 
     ret = ["\n"]
     interet = []
-- 
2.43.0


From 6268538e3f073314c4d56f18e093b33890f67242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 04/77] fix: converting an event log to a dataframe no longer
 writes case attributes into the original events

---
 pm4py/objects/conversion/log/variants/to_event_stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/conversion/log/variants/to_event_stream.py b/pm4py/objects/conversion/log/variants/to_event_stream.py
index ca07578..e9b4702 100644
--- a/pm4py/objects/conversion/log/variants/to_event_stream.py
+++ b/pm4py/objects/conversion/log/variants/to_event_stream.py
@@ -279,7 +279,7 @@ def __transform_event_log_to_event_stream(log, include_case_attributes=True,
                                     omni_present=log.omni_present, extensions=log.extensions, properties=log.properties)
     for index, trace in enumerate(log):
         for event in trace:
-            new_event = deepcopy(event) if enable_deepcopy else event
+            new_event = deepcopy(event) if enable_deepcopy else copy(event)
             if include_case_attributes:
                 for key, value in trace.attributes.items():
                     new_event[case_attribute_prefix + key] = value
-- 
2.43.0


From d2d123198f2c9cc720061f7cd6451ca89cfe712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 05/77] fix: service time computation works on a copy of the
 caller's dataframe

---
 pm4py/statistics/service_time/pandas/get.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pm4py/statistics/service_time/pandas/get.py b/pm4py/statistics/service_time/pandas/get.py
index 03ce48e..6b60135 100644
--- a/pm4py/statistics/service_time/pandas/get.py
+++ b/pm4py/statistics/service_time/pandas/get.py
@@ -82,6 +82,7 @@ def apply(dataframe: pd.DataFrame, parameters: Optional[Dict[Union[str, Paramete
     aggregation_measure = exec_utils.get_param_value(Parameters.AGGREGATION_MEASURE,
                                                      parameters, "mean")
 
+    dataframe = dataframe.copy()
     if business_hours:
         dataframe[DIFF_KEY] = dataframe.apply(
             lambda x: soj_time_business_hours_diff(x[start_timestamp_key], x[timestamp_key], business_hours_slots, workcalendar), axis=1)
-- 
2.43.0


From 016ff5be46bc6a1b21e24f7880286f5ede83be0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 06/77] fix: OCEL duplicate/sorting/timedelta helpers return a
 new log instead of altering the caller's

---
 pm4py/ocel.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pm4py/ocel.py b/pm4py/ocel.py
index d59103b..72cff31 100644
--- a/pm4py/ocel.py
+++ b/pm4py/ocel.py
@@ -431,7 +431,9 @@ def ocel_drop_duplicates(ocel: OCEL) -> OCEL:
         ocel = pm4py.ocel_drop_duplicates(ocel)
 
     """
+    import copy
     from pm4py.objects.ocel.util import filtering_utils
+    ocel = copy.copy(ocel)
     ocel.relations = ocel.relations.drop_duplicates(
         subset=[ocel.event_activity, ocel.event_timestamp, ocel.object_id_column])
     ocel = filtering_utils.propagate_relations_filtering(ocel)
@@ -456,6 +458,7 @@ def ocel_merge_duplicates(ocel: OCEL, have_common_object: Optional[bool]=False)
     """
     import copy
     import uuid
+    ocel = copy.deepcopy(ocel)
     relations = copy.copy(ocel.relations)
     if have_common_object:
         relations["@@groupn"] = relations.groupby([ocel.object_id_column, ocel.event_activity, ocel.event_timestamp]).ngroup()
@@ -498,7 +501,9 @@ def ocel_sort_by_additional_column(ocel: OCEL, additional_column: str, primary_c
         ocel = pm4py.ocel_sort_by_additional_column(ocel, 'ordering')
 
     """
-    ocel.events = pandas_utils.insert_index(ocel.events, "@@index", reset_index=False, copy_dataframe=False)
+    import copy
+    ocel = copy.copy(ocel)
+    ocel.events = pandas_utils.insert_index(ocel.events, "@@index", reset_index=False)
     ocel.events = ocel.events.sort_values([primary_column, additional_column, "@@index"])
     del ocel.events["@@index"]
     ocel.events = ocel.events.reset_index(drop=True)
@@ -522,7 +527,9 @@ def ocel_add_index_based_timedelta(ocel: OCEL) -> OCEL:
         ocel = pm4py.ocel_add_index_based_timedelta(ocel)
 
     """
+    import copy
     from datetime import timedelta
+    ocel = copy.deepcopy(ocel)
     eids = ocel.events[ocel.event_id_column].to_numpy().tolist()
     eids = {eids[i]: timedelta(milliseconds=i) for i in range(len(eids))}
     ocel.events["@@timedelta"] = ocel.events[ocel.event_id_column].map(eids)
-- 
2.43.0


From dddef9cbcd6690c878bc4776286b44f630601262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 07/77] fix: E2O qualification no longer rewrites the relations
 of the caller's OCEL

---
 pm4py/objects/ocel/util/e2o_qualification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/ocel/util/e2o_qualification.py b/pm4py/objects/ocel/util/e2o_qualification.py
index fbda6be..cfdb4f1 100644
--- a/pm4py/objects/ocel/util/e2o_qualification.py
+++ b/pm4py/objects/ocel/util/e2o_qualification.py
@@ -19,7 +19,7 @@ from pm4py.objects.ocel.obj import OCEL
 from typing import Optional, Dict, Any
 from enum import Enum
 from pm4py.util import exec_utils
-from copy import copy
+from copy import deepcopy
 
 class Parameters(Enum):
     CONCATENER = "concatener"
@@ -33,7 +33,7 @@ def apply(ocel: OCEL, qualifier_type: str, parameters: Optional[Dict[Any, Any]]
     concatener = exec_utils.get_param_value(Parameters.CONCATENER, parameters, "@@")
     concat_column = exec_utils.get_param_value(Parameters.CONCAT_COLUMN, parameters, "@@concat")
 
-    ocel = copy(ocel)
+    ocel = deepcopy(ocel)
     ocel.relations[concat_column] = ocel.relations[ocel.event_id_column] + concatener + ocel.relations[ocel.object_id_column]
     relations = ocel.relations.groupby(ocel.object_id_column)[ocel.event_id_column]
 
-- 
2.43.0


From 47d4cb2e53cc3ee88572190b3087fa5741677a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 08/77] fix: exporting an OCEL (or building one) no longer
 alters the tables passed by the caller

---
 pm4py/objects/ocel/obj.py                   | 2 +-
 pm4py/objects/ocel/util/ocel_consistency.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/ocel/obj.py b/pm4py/objects/ocel/obj.py
index 32743a9..dc93a06 100644
--- a/pm4py/objects/ocel/obj.py
+++ b/pm4py/objects/ocel/obj.py
@@ -68,7 +68,7 @@ class OCEL(object):
         if object_changes is None:
             object_changes = pandas_utils.instantiate_dataframe({self.object_id_column: [], self.object_type_column: [], self.event_timestamp: [], self.changed_field: []})
         if self.qualifier not in relations:
-            relations[self.qualifier] = [None] * len(relations)
+            relations = relations.assign(**{self.qualifier: [None] * len(relations)})
 
         self.events = events
         self.objects = objects
diff --git a/pm4py/objects/ocel/util/ocel_consistency.py b/pm4py/objects/ocel/util/ocel_consistency.py
index 009bc6d..ef2b158 100644
--- a/pm4py/objects/ocel/util/ocel_consistency.py
+++ b/pm4py/objects/ocel/util/ocel_consistency.py
@@ -17,6 +17,7 @@
 
 from pm4py.objects.ocel.obj import OCEL
 from typing import Optional, Dict, Any
+from copy import copy
 
 
 def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
@@ -39,6 +40,8 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
     if parameters is None:
         parameters = {}
 
+    ocel = copy(ocel)
+
     fields = {
         "events": ["ocel:eid", "ocel:activity"],
         "objects": ["ocel:oid", "ocel:type"],
-- 
2.43.0


From 0e60078f2ccaa7c3bf3e14caa97770e346d2b2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 09/77] fix: playing out an interleaving no longer reorders the
 children of the process tree

---
 .../simulation/playout/process_tree/variants/topbottom.py    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py b/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py
index 8aeabdf..15578eb 100644
--- a/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py
+++ b/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py
@@ -140,9 +140,10 @@ def get_ex_seq(tree):
             ret = ret + get_ex_seq(child)
         return ret
     elif tree.operator is Operator.INTERLEAVING:
-        random.shuffle(tree.children)
+        children = list(tree.children)
+        random.shuffle(children)
         ret = []
-        for child in tree.children:
+        for child in children:
             ret = ret + get_ex_seq(child)
         return ret
     elif tree.operator is Operator.LOOP:
-- 
2.43.0


From 25503b6ef4486a3422da9a57b7eb9851cc010063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 10/77] fix: inserting case rates and times returns a new
 dataframe, leaving the input as it was

---
 pm4py/util/pandas_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/util/pandas_utils.py b/pm4py/util/pandas_utils.py
index 634f9b9..82e1adc 100644
--- a/pm4py/util/pandas_utils.py
+++ b/pm4py/util/pandas_utils.py
@@ -230,6 +230,7 @@ def insert_case_arrival_finish_rate(log: pd.DataFrame, case_id_column=constants.
     case_finish[0][1] = 0
     case_finish = {x[0]: x[1] for x in case_finish}
 
+    log = log.copy()
     log[arrival_rate_column] = log[case_id_column].map(case_arrival)
     log[finish_rate_column] = log[case_id_column].map(case_finish)
 
@@ -255,6 +256,7 @@ def insert_case_service_waiting_time(log: pd.DataFrame, case_id_column=constants
     if start_timestamp_column is None:
         start_timestamp_column = timestamp_column
 
+    log = log.copy()
     log[diff_start_end_column] = get_total_seconds(log[timestamp_column] - log[start_timestamp_column])
     service_times = log.groupby(case_id_column)[diff_start_end_column].sum().to_dict()
     log[service_time_column] = log[case_id_column].map(service_times)
-- 
2.43.0


From fbe444650cb69453d551ea2a085daf39abe11e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 11/77] fix: drawing a transition system no longer overwrites
 the names and labels of its states

---
 .../transition_system/util/visualize_graphviz.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/pm4py/visualization/transition_system/util/visualize_graphviz.py b/pm4py/visualization/transition_system/util/visualize_graphviz.py
index c1d3f12..1bf7887 100644
--- a/pm4py/visualization/transition_system/util/visualize_graphviz.py
+++ b/pm4py/visualization/transition_system/util/visualize_graphviz.py
@@ -15,7 +15,6 @@
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
 import tempfile
-from copy import copy
 
 from graphviz import Digraph
 from pm4py.util import exec_utils, constants
@@ -45,18 +44,13 @@ def visualize(ts, parameters=None):
     font_size = str(font_size)
     bgcolor = exec_utils.get_param_value(Parameters.BGCOLOR, parameters, constants.DEFAULT_BGCOLOR)
 
-    for state in ts.states:
-        state.label = state.name
+    labels = {id(state): state.name for state in ts.states}
 
     perc_char = '%'
 
     if force_names:
-        nts = copy(ts)
-        for index, state in enumerate(nts.states):
-            state.name = state.name + " (%.2f)" % (force_names[state])
-            state.label = "%.2f" % (force_names[state] * 100.0)
-            state.label = state.label + perc_char
-        ts = nts
+        for state in ts.states:
+            labels[id(state)] = "%.2f" % (force_names[state] * 100.0) + perc_char
 
     filename = tempfile.NamedTemporaryFile(suffix='.gv')
     filename.close()
@@ -68,9 +62,9 @@ def visualize(ts, parameters=None):
     for s in ts.states:
         if show_names:
             if s in fillcolors:
-                viz.node(str(id(s)), str(s.label), style="filled", fillcolor=fillcolors[s], fontsize=font_size)
+                viz.node(str(id(s)), str(labels[id(s)]), style="filled", fillcolor=fillcolors[s], fontsize=font_size)
             else:
-                viz.node(str(id(s)), str(s.label), fontsize=font_size)
+                viz.node(str(id(s)), str(labels[id(s)]), fontsize=font_size)
         else:
             if s in fillcolors:
                 viz.node(str(id(s)), "", style="filled", fillcolor=fillcolors[s], fontsize=font_size)
-- 
2.43.0


From 3bc6ea6d6fa7877fb7d3dafb72cac4475bfd65a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 12/77] fix: anonymizing an event log with PRIPEL no longer
 strips and rewrites the original log

---
 pm4py/algo/anonymization/pripel/variants/pripel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/anonymization/pripel/variants/pripel.py b/pm4py/algo/anonymization/pripel/variants/pripel.py
index 13516c8..eb7fc5d 100644
--- a/pm4py/algo/anonymization/pripel/variants/pripel.py
+++ b/pm4py/algo/anonymization/pripel/variants/pripel.py
@@ -14,6 +14,7 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from copy import deepcopy
 from enum import Enum
 from typing import Optional, Dict, Any, Union
 
@@ -116,4 +117,4 @@ def apply(log: Union[EventLog, pd.DataFrame], traceVariantQuery: Union[EventLog,
 
     blocklist = exec_utils.get_param_value(Parameters.BLOCKLIST, parameters, None)
 
-    return apply_pripel(log, traceVariantQuery, epsilon, blocklist)
+    return apply_pripel(deepcopy(log), traceVariantQuery, epsilon, blocklist)
-- 
2.43.0


From ca457a3877e886af2fe391705600f3f15ce9facb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 13/77] fix: inserting artificial start/end events in an event
 log returns a new log, as for dataframes

---
 pm4py/analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/analysis.py b/pm4py/analysis.py
index 53e1217..e04fc46 100644
--- a/pm4py/analysis.py
+++ b/pm4py/analysis.py
@@ -247,7 +247,8 @@ def insert_artificial_start_end(log: Union[EventLog, pd.DataFrame], activity_key
         return dataframe_utils.insert_artificial_start_end(log, parameters=properties)
     else:
         from pm4py.objects.log.util import artificial
-        return artificial.insert_artificial_start_end(log, parameters=properties)
+        from copy import deepcopy
+        return artificial.insert_artificial_start_end(deepcopy(log), parameters=properties)
 
 
 def insert_case_service_waiting_time(log: Union[EventLog, pd.DataFrame], service_time_column: str = "@@service_time",
-- 
2.43.0


From 999501fed68de82d81823dad496e99e4b82e71cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 14/77] fix: reducing implicit places works on a copy of the
 given net and markings

---
 pm4py/analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/analysis.py b/pm4py/analysis.py
index e04fc46..b0e3f15 100644
--- a/pm4py/analysis.py
+++ b/pm4py/analysis.py
@@ -463,6 +463,8 @@ def reduce_petri_net_implicit_places(net: PetriNet, im: Marking, fm: Marking) ->
         net = pm4py.reduce_petri_net_implicit_places(net, im, fm)
     """
     from pm4py.objects.petri_net.utils import murata
+    from copy import deepcopy
+    net, im, fm = deepcopy([net, im, fm])
     return murata.apply_reduction(net, im, fm)
 
 
-- 
2.43.0


From 7d31f58c4068aa5901c759b2dd79e30062e6f5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 15/77] fix: deep copies of Petri nets keep net class, arc
 types, arc/net properties and transition weights, and share no property map

---
 pm4py/objects/petri_net/obj.py            | 22 +++++++++++++---------
 pm4py/objects/petri_net/stochastic/obj.py | 12 ++++++++++++
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/pm4py/objects/petri_net/obj.py b/pm4py/objects/petri_net/obj.py
index b8076cf..8392404 100644
--- a/pm4py/objects/petri_net/obj.py
+++ b/pm4py/objects/petri_net/obj.py
@@ -15,7 +15,7 @@
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
 from collections import Counter
-from copy import deepcopy
+from copy import copy, deepcopy
 from typing import Any, Collection, Dict
 
 
@@ -117,7 +117,7 @@ class PetriNet(object):
         def __deepcopy__(self, memodict={}):
             if id(self) in memodict:
                 return memodict[id(self)]
-            new_place = PetriNet.Place(self.name, properties=self.properties)
+            new_place = self.__class__(self.name, properties=copy(self.properties))
             memodict[id(self)] = new_place
             for arc in self.in_arcs:
                 new_arc = deepcopy(arc, memo=memodict)
@@ -182,7 +182,7 @@ class PetriNet(object):
         def __deepcopy__(self, memodict={}):
             if id(self) in memodict:
                 return memodict[id(self)]
-            new_trans = PetriNet.Transition(self.name, self.label, properties=self.properties)
+            new_trans = self.__class__(self.name, self.label, properties=copy(self.properties))
             memodict[id(self)] = new_trans
             for arc in self.in_arcs:
                 new_arc = deepcopy(arc, memo=memodict)
@@ -246,7 +246,7 @@ class PetriNet(object):
                                                                                                 memo=memodict)
             memodict[id(self.source)] = new_source
             memodict[id(self.target)] = new_target
-            new_arc = PetriNet.Arc(new_source, new_target, weight=self.weight, properties=self.properties)
+            new_arc = self.__class__(new_source, new_target, weight=copy(self.weight), properties=copy(self.properties))
             memodict[id(self)] = new_arc
             return new_arc
 
@@ -295,19 +295,23 @@ class PetriNet(object):
         return id(self) == id(other)
 
     def __deepcopy__(self, memodict={}):
-        from pm4py.objects.petri_net.utils.petri_utils import add_arc_from_to
-        this_copy = PetriNet(self.name)
+        this_copy = self.__class__(self.name, properties=copy(self.properties))
         memodict[id(self)] = this_copy
         for place in self.places:
-            place_copy = PetriNet.Place(place.name, properties=place.properties)
+            place_copy = PetriNet.Place(place.name, properties=copy(place.properties))
             this_copy.places.add(place_copy)
             memodict[id(place)] = place_copy
         for trans in self.transitions:
-            trans_copy = PetriNet.Transition(trans.name, trans.label, properties=trans.properties)
+            trans_copy = trans.__class__(trans.name, trans.label, properties=copy(trans.properties))
             this_copy.transitions.add(trans_copy)
             memodict[id(trans)] = trans_copy
         for arc in self.arcs:
-            add_arc_from_to(memodict[id(arc.source)], memodict[id(arc.target)], this_copy, weight=arc.weight)
+            arc_copy = arc.__class__(memodict[id(arc.source)], memodict[id(arc.target)], weight=copy(arc.weight),
+                                     properties=copy(arc.properties))
+            this_copy.arcs.add(arc_copy)
+            arc_copy.source.out_arcs.add(arc_copy)
+            arc_copy.target.in_arcs.add(arc_copy)
+            memodict[id(arc)] = arc_copy
         return this_copy
 
     def __repr__(self):
diff --git a/pm4py/objects/petri_net/stochastic/obj.py b/pm4py/objects/petri_net/stochastic/obj.py
index eb61072..fed0b11 100644
--- a/pm4py/objects/petri_net/stochastic/obj.py
+++ b/pm4py/objects/petri_net/stochastic/obj.py
@@ -34,3 +34,15 @@ class StochasticPetriNet(PetriNet):
             return self.__weight
 
         weight = property(__get_weight, __set_weight)
+
+        def __deepcopy__(self, memodict={}):
+            new_trans = super().__deepcopy__(memodict)
+            new_trans.weight = self.weight
+            return new_trans
+
+    def __deepcopy__(self, memodict={}):
+        this_copy = super().__deepcopy__(memodict)
+        for trans in self.transitions:
+            if isinstance(trans, StochasticPetriNet.Transition):
+                memodict[id(trans)].weight = trans.weight
+        return this_copy
-- 
2.43.0


From 47cb11e681aeaab2d6e6288a32dd94ddd579083f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 16/77] fix: copies of a trace keep the properties of the trace

---
 pm4py/objects/log/obj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/log/obj.py b/pm4py/objects/log/obj.py
index b4914d4..84cc318 100644
--- a/pm4py/objects/log/obj.py
+++ b/pm4py/objects/log/obj.py
@@ -296,7 +296,7 @@ class Trace(Sequence):
         new_attributes = {}
         for k, v in self.attributes.items():
             new_attributes[k] = v
-        trace = Trace(attributes=new_attributes)
+        trace = Trace(attributes=new_attributes, properties=copy.copy(self._properties))
         for ev in self._list:
             trace.append(ev)
         return trace
@@ -308,7 +308,7 @@ class Trace(Sequence):
                 new_attributes[k] = copy.deepcopy(v)
             else:
                 new_attributes[k] = v
-        trace = Trace(attributes=new_attributes)
+        trace = Trace(attributes=new_attributes, properties=copy.deepcopy(self._properties))
         for ev in self._list:
             trace.append(copy.deepcopy(ev))
         return trace
-- 
2.43.0


From 3b8d3420bfb26c06037fd79b669e5bddd43e2289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:49 +0000
Subject: [PATCH 17/77] fix: approximated process tree alignments no longer
 binarize the caller's tree

---
 .../process_tree/variants/approximated/matrix_lp.py           | 4 ++--
 .../alignments/process_tree/variants/approximated/original.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py
index e47d94b..57b18c1 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py
@@ -31,7 +31,7 @@ from pm4py.statistics.variants.log.get import get_variants_from_log_trace_idx
 from pm4py.util.lp import solver
 from enum import Enum
 import numpy as np
-from copy import copy
+from copy import copy, deepcopy
 import sys
 import time
 from pm4py.util import variants_util
@@ -162,7 +162,7 @@ def __align(obj: Union[Trace, EventLog], pt: ProcessTree, max_trace_length: int
         e.append(obj)
         obj = e
     assert isinstance(obj, EventLog)
-    pt = process_tree_to_binary_process_tree(pt)
+    pt = process_tree_to_binary_process_tree(deepcopy(pt))
     pt = EfficientTree(pt)
 
     parameters[Parameters.SUBTREE_ALIGN_CACHE] = {}
diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/original.py b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/original.py
index 03a0189..fcaea3b 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/original.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/original.py
@@ -28,6 +28,7 @@ from pm4py.objects.process_tree.obj import Operator
 from pm4py.util.xes_constants import DEFAULT_NAME_KEY
 from pm4py.util import exec_utils, constants
 from pm4py.statistics.variants.log.get import get_variants_from_log_trace_idx
+from copy import deepcopy
 from enum import Enum
 import sys
 import time
@@ -156,7 +157,7 @@ def __align(obj: Union[Trace, EventLog], pt: ProcessTree, max_trace_length: int
         e.append(obj)
         obj = e
     assert isinstance(obj, EventLog)
-    pt = process_tree_to_binary_process_tree(pt)
+    pt = process_tree_to_binary_process_tree(deepcopy(pt))
     pt = EfficientTree(pt)
     
     return __approximate_alignments_for_log(obj, pt, max_trace_length, max_process_tree_height,
-- 
2.43.0


From d3aa0e1524c1c3fe17918eaab1964ee193bfdfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:49 +0000
Subject: [PATCH 18/77] fix: label splitting no longer relabels the caller's
 dataframe

---
 pm4py/algo/label_splitting/variants/contextual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/label_splitting/variants/contextual.py b/pm4py/algo/label_splitting/variants/contextual.py
index a83bb66..69e7a30 100644
--- a/pm4py/algo/label_splitting/variants/contextual.py
+++ b/pm4py/algo/label_splitting/variants/contextual.py
@@ -208,6 +208,6 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], parameters: Optional[
 
     # STEP 4
     # eventually, the relabeling applies
-    log[target_column] = log[index_key].map(final_mapping)
+    log = log.assign(**{target_column: log[index_key].map(final_mapping)})
 
     return log
-- 
2.43.0


From f0b0473d76622a0b38c295ec7f54069c574a2517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:49 +0000
Subject: [PATCH 19/77] fix: mapping activities to letters returns a new
 dataframe

---
 pm4py/objects/log/util/activities_to_alphabet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/log/util/activities_to_alphabet.py b/pm4py/objects/log/util/activities_to_alphabet.py
index 4129428..68d21bd 100644
--- a/pm4py/objects/log/util/activities_to_alphabet.py
+++ b/pm4py/objects/log/util/activities_to_alphabet.py
@@ -71,7 +71,7 @@ def apply(dataframe: pd.DataFrame, parameters: Optional[Dict[Any, Any]] = None)
             result = chr((index % 26) + ord('A')) + result
             index = index // 26 - 1
         remap_dict[act] = result
-    dataframe[activity_key] = dataframe[activity_key].map(remap_dict)
+    dataframe = dataframe.assign(**{activity_key: dataframe[activity_key].map(remap_dict)})
     if return_mapping:
         inverse_dct = {y: x for x, y in remap_dict.items()}
         return dataframe, inverse_dct
-- 
2.43.0


From be7b838de5700984adc85bbecbdfb78a1c276a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:09 +0000
Subject: [PATCH 20/77] fix: use the given timestamp_key as default of the
 start timestamp key

---
 .../temporal_profile/variants/log.py           |  2 +-
 pm4py/algo/discovery/batches/variants/log.py   |  4 ++--
 .../correlation_mining/variants/classic.py     |  4 ++--
 .../variants/classic_split.py                  |  2 +-
 .../correlation_mining/variants/trace_based.py |  4 ++--
 .../algo/discovery/dfg/variants/performance.py |  4 ++--
 .../discovery/temporal_profile/variants/log.py |  2 +-
 .../log_to_features/variants/trace_based.py    | 18 +++++++++---------
 .../variants/open_paths.py                     |  4 ++--
 .../concurrent_activities/log/get.py           |  2 +-
 pm4py/statistics/eventually_follows/log/get.py |  2 +-
 pm4py/statistics/overlap/cases/log/get.py      |  2 +-
 pm4py/statistics/overlap/cases/pandas/get.py   |  2 +-
 .../overlap/interval_events/log/get.py         |  4 ++--
 .../overlap/interval_events/pandas/get.py      |  4 ++--
 pm4py/statistics/service_time/log/get.py       |  4 ++--
 pm4py/statistics/service_time/pandas/get.py    |  4 ++--
 pm4py/statistics/traces/cycle_time/log/get.py  |  2 +-
 .../conformance/temporal/variants/classic.py   |  2 +-
 19 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/pm4py/algo/conformance/temporal_profile/variants/log.py b/pm4py/algo/conformance/temporal_profile/variants/log.py
index c10224c..9165d2e 100644
--- a/pm4py/algo/conformance/temporal_profile/variants/log.py
+++ b/pm4py/algo/conformance/temporal_profile/variants/log.py
@@ -90,7 +90,7 @@ def apply(log: EventLog, temporal_profile: typing.TemporalProfile,
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
     zeta = exec_utils.get_param_value(Parameters.ZETA, parameters, 6.0)
 
     ret = []
diff --git a/pm4py/algo/discovery/batches/variants/log.py b/pm4py/algo/discovery/batches/variants/log.py
index 84bb801..55f1deb 100644
--- a/pm4py/algo/discovery/batches/variants/log.py
+++ b/pm4py/algo/discovery/batches/variants/log.py
@@ -79,10 +79,10 @@ def apply(log: EventLog, parameters: Optional[Dict[Union[str, Parameters], Any]]
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     resource_key = exec_utils.get_param_value(Parameters.RESOURCE_KEY, parameters, xes_constants.DEFAULT_RESOURCE_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
+                                                     timestamp_key)
     case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
 
     events = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_STREAM)
diff --git a/pm4py/algo/discovery/correlation_mining/variants/classic.py b/pm4py/algo/discovery/correlation_mining/variants/classic.py
index e69ced5..c4509b7 100644
--- a/pm4py/algo/discovery/correlation_mining/variants/classic.py
+++ b/pm4py/algo/discovery/correlation_mining/variants/classic.py
@@ -125,7 +125,7 @@ def get_PS_dur_matrix(activities_grouped, activities, parameters=None):
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
     exact_time_matching = exec_utils.get_param_value(Parameters.EXACT_TIME_MATCHING, parameters, False)
 
     PS_matrix = get_precede_succeed_matrix(activities, activities_grouped, timestamp_key, start_timestamp_key)
@@ -164,7 +164,7 @@ def preprocess_log(log, activities=None, parameters=None):
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
     index_key = exec_utils.get_param_value(Parameters.INDEX_KEY, parameters, DEFAULT_INDEX_KEY)
 
     if pandas_utils.check_is_pandas_dataframe(log):
diff --git a/pm4py/algo/discovery/correlation_mining/variants/classic_split.py b/pm4py/algo/discovery/correlation_mining/variants/classic_split.py
index 9d3a887..43779c8 100644
--- a/pm4py/algo/discovery/correlation_mining/variants/classic_split.py
+++ b/pm4py/algo/discovery/correlation_mining/variants/classic_split.py
@@ -58,7 +58,7 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], parameters: Optional[
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
     sample_size = exec_utils.get_param_value(Parameters.SAMPLE_SIZE, parameters, 100000)
 
     PS_matrixes = []
diff --git a/pm4py/algo/discovery/correlation_mining/variants/trace_based.py b/pm4py/algo/discovery/correlation_mining/variants/trace_based.py
index 398f31f..2c1a9f9 100644
--- a/pm4py/algo/discovery/correlation_mining/variants/trace_based.py
+++ b/pm4py/algo/discovery/correlation_mining/variants/trace_based.py
@@ -118,7 +118,7 @@ def get_PS_duration_matrix(activities, trace_grouped_list, parameters=None):
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
 
     PS_matrix = get_precede_succeed_matrix(activities, trace_grouped_list, timestamp_key, start_timestamp_key)
     duration_matrix = get_duration_matrix(activities, trace_grouped_list, timestamp_key, start_timestamp_key)
@@ -159,7 +159,7 @@ def preprocess_log(log, activities=None, activities_counter=None, parameters=Non
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
     caseid_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
     index_key = exec_utils.get_param_value(Parameters.INDEX_KEY, parameters, DEFAULT_INDEX_KEY)
 
diff --git a/pm4py/algo/discovery/dfg/variants/performance.py b/pm4py/algo/discovery/dfg/variants/performance.py
index c25981a..d85d317 100644
--- a/pm4py/algo/discovery/dfg/variants/performance.py
+++ b/pm4py/algo/discovery/dfg/variants/performance.py
@@ -73,9 +73,9 @@ def performance(log: Union[EventLog, EventStream], parameters: Optional[Dict[Uni
         parameters = {}
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_util.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_util.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_util.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
+                                                     timestamp_key)
     aggregation_measure = exec_utils.get_param_value(Parameters.AGGREGATION_MEASURE, parameters, "mean")
 
     business_hours = exec_utils.get_param_value(Parameters.BUSINESS_HOURS, parameters, False)
diff --git a/pm4py/algo/discovery/temporal_profile/variants/log.py b/pm4py/algo/discovery/temporal_profile/variants/log.py
index 4bf2524..477eebb 100644
--- a/pm4py/algo/discovery/temporal_profile/variants/log.py
+++ b/pm4py/algo/discovery/temporal_profile/variants/log.py
@@ -80,7 +80,7 @@ def apply(log: EventLog, parameters: Optional[Dict[Any, Any]] = None) -> typing.
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
 
     diff_time_recordings = {}
 
diff --git a/pm4py/algo/transformation/log_to_features/variants/trace_based.py b/pm4py/algo/transformation/log_to_features/variants/trace_based.py
index 17bc89b..9908b13 100644
--- a/pm4py/algo/transformation/log_to_features/variants/trace_based.py
+++ b/pm4py/algo/transformation/log_to_features/variants/trace_based.py
@@ -81,8 +81,8 @@ def max_concurrent_events(log: EventLog, parameters: Optional[Dict[Union[str, Pa
     if parameters is None:
         parameters = {}
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
 
     data = []
     feature_names = ["@@max_concurrent_activities_general"]
@@ -130,8 +130,8 @@ def max_concurrent_events_per_activity(log: EventLog, parameters: Optional[Dict[
     if parameters is None:
         parameters = {}
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
 
     activities = list(set(y[activity_key] for x in log for y in x))
@@ -189,8 +189,8 @@ def resource_workload(log: EventLog, parameters: Optional[Dict[Union[str, Parame
 
     from intervaltree.intervaltree import IntervalTree, Interval
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     resource_key = exec_utils.get_param_value(Parameters.RESOURCE_KEY, parameters, xes_constants.DEFAULT_RESOURCE_KEY)
     epsilon = exec_utils.get_param_value(Parameters.EPSILON, parameters, 0.000001)
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
@@ -249,8 +249,8 @@ def work_in_progress(log: EventLog, parameters: Optional[Dict[Union[str, Paramet
 
     from intervaltree.intervaltree import IntervalTree, Interval
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     epsilon = exec_utils.get_param_value(Parameters.EPSILON, parameters, 0.000001)
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
 
@@ -298,8 +298,8 @@ def indirect_paths_times_last_occ(log: EventLog, parameters: Optional[Dict[Union
         parameters = {}
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
 
     all_paths = set()
@@ -356,8 +356,8 @@ def direct_paths_times_last_occ(log: EventLog, parameters: Optional[Dict[Union[s
         parameters = {}
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
 
     all_paths = set()
@@ -412,8 +412,8 @@ def times_from_first_occurrence_activity_case(log: EventLog, parameters: Optiona
         parameters = {}
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
 
     activities_log = set()
@@ -473,8 +473,8 @@ def times_from_last_occurrence_activity_case(log: EventLog, parameters: Optional
         parameters = {}
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
 
     activities_log = set()
@@ -589,8 +589,8 @@ def case_duration(log: EventLog, parameters: Optional[Dict[Union[str, Parameters
     if parameters is None:
         parameters = {}
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
 
     feature_names = ["@@caseDuration"]
     data = []
diff --git a/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py b/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py
index 9a68843..a5e60ec 100644
--- a/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py
+++ b/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py
@@ -64,10 +64,10 @@ def log_to_intervals(log: Union[EventLog, pd.DataFrame], parameters: Optional[Di
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
+                                                     timestamp_key)
     filter_activity_couple = exec_utils.get_param_value(Parameters.FILTER_ACTIVITY_COUPLE, parameters, None)
 
     ret_list = []
diff --git a/pm4py/statistics/concurrent_activities/log/get.py b/pm4py/statistics/concurrent_activities/log/get.py
index b1b2386..86ba72d 100644
--- a/pm4py/statistics/concurrent_activities/log/get.py
+++ b/pm4py/statistics/concurrent_activities/log/get.py
@@ -61,7 +61,7 @@ def apply(interval_log: EventLog, parameters: Optional[Dict[Union[str, Parameter
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
     strict = exec_utils.get_param_value(Parameters.STRICT, parameters, False)
 
     ret_dict = {}
diff --git a/pm4py/statistics/eventually_follows/log/get.py b/pm4py/statistics/eventually_follows/log/get.py
index 918738b..5394f08 100644
--- a/pm4py/statistics/eventually_follows/log/get.py
+++ b/pm4py/statistics/eventually_follows/log/get.py
@@ -40,7 +40,7 @@ def apply(interval_log: EventLog, parameters: Optional[Dict[Union[str, Parameter
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
     keep_first_following = exec_utils.get_param_value(Parameters.KEEP_FIRST_FOLLOWING, parameters, False)
 
     ret_dict = {}
diff --git a/pm4py/statistics/overlap/cases/log/get.py b/pm4py/statistics/overlap/cases/log/get.py
index b6559d1..58115e8 100644
--- a/pm4py/statistics/overlap/cases/log/get.py
+++ b/pm4py/statistics/overlap/cases/log/get.py
@@ -54,7 +54,7 @@ def apply(log: EventLog, parameters: Optional[Dict[Union[str, Parameters], Any]]
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
 
     points = []
     for trace in log:
diff --git a/pm4py/statistics/overlap/cases/pandas/get.py b/pm4py/statistics/overlap/cases/pandas/get.py
index 1546bc5..165801a 100644
--- a/pm4py/statistics/overlap/cases/pandas/get.py
+++ b/pm4py/statistics/overlap/cases/pandas/get.py
@@ -53,7 +53,7 @@ def apply(df: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], An
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
     case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
 
     columns = list({timestamp_key, start_timestamp_key, case_id_key})
diff --git a/pm4py/statistics/overlap/interval_events/log/get.py b/pm4py/statistics/overlap/interval_events/log/get.py
index 1c7ddad..92e09e8 100644
--- a/pm4py/statistics/overlap/interval_events/log/get.py
+++ b/pm4py/statistics/overlap/interval_events/log/get.py
@@ -52,10 +52,10 @@ def apply(log: Union[EventLog, EventStream], parameters: Optional[Dict[Union[str
         parameters = {}
 
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
+                                                     timestamp_key)
 
     points = []
     for trace in log:
diff --git a/pm4py/statistics/overlap/interval_events/pandas/get.py b/pm4py/statistics/overlap/interval_events/pandas/get.py
index cb42670..bc09792 100644
--- a/pm4py/statistics/overlap/interval_events/pandas/get.py
+++ b/pm4py/statistics/overlap/interval_events/pandas/get.py
@@ -51,10 +51,10 @@ def apply(df: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], An
     if parameters is None:
         parameters = {}
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
+                                                     timestamp_key)
 
     df = df[list({start_timestamp_key, timestamp_key})].to_dict('records')
     points = []
diff --git a/pm4py/statistics/service_time/log/get.py b/pm4py/statistics/service_time/log/get.py
index f3781a0..177a4ba 100644
--- a/pm4py/statistics/service_time/log/get.py
+++ b/pm4py/statistics/service_time/log/get.py
@@ -79,10 +79,10 @@ def apply(log: EventLog, parameters: Optional[Dict[Union[str, Parameters], Any]]
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
+                                                     timestamp_key)
     aggregation_measure = exec_utils.get_param_value(Parameters.AGGREGATION_MEASURE,
                                                      parameters, "mean")
 
diff --git a/pm4py/statistics/service_time/pandas/get.py b/pm4py/statistics/service_time/pandas/get.py
index 6b60135..a620928 100644
--- a/pm4py/statistics/service_time/pandas/get.py
+++ b/pm4py/statistics/service_time/pandas/get.py
@@ -75,10 +75,10 @@ def apply(dataframe: pd.DataFrame, parameters: Optional[Dict[Union[str, Paramete
     workcalendar = exec_utils.get_param_value(Parameters.WORKCALENDAR, parameters, constants.DEFAULT_BUSINESS_HOURS_WORKCALENDAR)
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
+                                                     timestamp_key)
     aggregation_measure = exec_utils.get_param_value(Parameters.AGGREGATION_MEASURE,
                                                      parameters, "mean")
 
diff --git a/pm4py/statistics/traces/cycle_time/log/get.py b/pm4py/statistics/traces/cycle_time/log/get.py
index db3e57f..55b0ec3 100644
--- a/pm4py/statistics/traces/cycle_time/log/get.py
+++ b/pm4py/statistics/traces/cycle_time/log/get.py
@@ -59,8 +59,8 @@ def apply(log_or_trace: Union[Trace, EventLog], parameters: Optional[Dict[Union[
     if parameters is None:
         parameters = {}
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
 
     if type(log_or_trace) is Trace:
         log = EventLog()
diff --git a/pm4py/streaming/algo/conformance/temporal/variants/classic.py b/pm4py/streaming/algo/conformance/temporal/variants/classic.py
index ff29c90..975604f 100644
--- a/pm4py/streaming/algo/conformance/temporal/variants/classic.py
+++ b/pm4py/streaming/algo/conformance/temporal/variants/classic.py
@@ -72,7 +72,7 @@ class TemporalProfileStreamingConformance(StreamingAlgorithm):
         self.timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                         xes_constants.DEFAULT_TIMESTAMP_KEY)
         self.start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                              xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                              self.timestamp_key)
         self.case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
         self.zeta = exec_utils.get_param_value(Parameters.ZETA, parameters, 6.0)
         parameters_gen = copy(parameters)
-- 
2.43.0


From c70a2d9f22efca5ec6a881cdb5e24f1d6219758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:12 +0000
Subject: [PATCH 21/77] fix: keep the parameters (activity key, cores) in the
 multiprocessing align-etconformance

---
 pm4py/algo/evaluation/precision/variants/align_etconformance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/evaluation/precision/variants/align_etconformance.py b/pm4py/algo/evaluation/precision/variants/align_etconformance.py
index 074aff5..3ded70e 100644
--- a/pm4py/algo/evaluation/precision/variants/align_etconformance.py
+++ b/pm4py/algo/evaluation/precision/variants/align_etconformance.py
@@ -265,7 +265,7 @@ def __align_log_wo_multiprocessing_stop_marking(fake_log, net, marking, final_ma
 
 
 def __align_log_with_multiprocessing_stop_marking(fake_log, net, marking, final_marking, progress, parameters=None):
-    if parameters is not None:
+    if parameters is None:
         parameters = {}
 
     import multiprocessing
-- 
2.43.0


From 76c07a0f60692fd0933b79da89c5bbd955e526a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:12 +0000
Subject: [PATCH 22/77] fix: minimum self distance witnesses use the given
 activity, timestamp and case keys

---
 pm4py/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/stats.py b/pm4py/stats.py
index 2644415..365971f 100644
--- a/pm4py/stats.py
+++ b/pm4py/stats.py
@@ -468,7 +468,8 @@ def get_minimum_self_distance_witnesses(log: Union[EventLog, pd.DataFrame], acti
 
     from pm4py.algo.discovery.minimum_self_distance import algorithm as msd_algo
     from pm4py.algo.discovery.minimum_self_distance import utils as msdw_algo
-    return msdw_algo.derive_msd_witnesses(log, msd_algo.apply(log, parameters=get_properties(log, activity_key=activity_key, timestamp_key=timestamp_key, case_id_key=case_id_key)))
+    properties = get_properties(log, activity_key=activity_key, timestamp_key=timestamp_key, case_id_key=case_id_key)
+    return msdw_algo.derive_msd_witnesses(log, msd_algo.apply(log, parameters=properties), parameters=properties)
 
 
 def get_case_arrival_average(log: Union[EventLog, pd.DataFrame], activity_key: str = "concept:name", timestamp_key: str = "time:timestamp", case_id_key: str = "case:concept:name") -> float:
-- 
2.43.0


From 34a8757d47c5636c82cc093269de13cb351d1a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:12 +0000
Subject: [PATCH 23/77] fix: check_is_fitting uses the given activity key in
 all its checks

---
 pm4py/conformance.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pm4py/conformance.py b/pm4py/conformance.py
index d438e2c..3313e64 100644
--- a/pm4py/conformance.py
+++ b/pm4py/conformance.py
@@ -581,21 +581,22 @@ def precision_footprints(*args) -> float:
 
 
 @deprecation.deprecated(removed_in="2.3.0", deprecated_in="3.0.0", details="this method will be removed in a future release.")
-def __check_is_fit_process_tree(trace, tree) -> bool:
+def __check_is_fit_process_tree(trace, tree, activity_key=xes_constants.DEFAULT_NAME_KEY) -> bool:
     """
     Check if a trace object is fit against a process tree model
 
     :param trace: trace
     :param tree: process tree
+    :param activity_key: attribute to be used as activity
     :rtype: ``bool``
     """
     __event_log_deprecation_warning(trace)
 
-    from pm4py.discovery import discover_footprints
+    from pm4py.algo.discovery.footprints import algorithm as footprints_discovery
     log = EventLog()
     log.append(trace)
-    fp_tree = discover_footprints(tree)
-    fp_log = discover_footprints(log)
+    fp_tree = footprints_discovery.apply(tree)
+    fp_log = footprints_discovery.apply(log, parameters=get_properties(log, activity_key=activity_key))
     fp_conf_res = conformance_diagnostics_footprints(fp_log, fp_tree)[0]
     # CHECK 1) if footprints already say is not fit, then return False
     # (if they say True, it might be a false positive)
@@ -604,14 +605,14 @@ def __check_is_fit_process_tree(trace, tree) -> bool:
     else:
         from pm4py.convert import convert_to_petri_net
         net, im, fm = convert_to_petri_net(tree)
-        tbr_conf_res = conformance_diagnostics_token_based_replay(log, net, im, fm, return_diagnostics_dataframe=False)[0]
+        tbr_conf_res = conformance_diagnostics_token_based_replay(log, net, im, fm, activity_key=activity_key, return_diagnostics_dataframe=False)[0]
         # CHECK 2) if TBR says that is fit, then return True
         # (if they say False, it might be a false negative)
         if tbr_conf_res["trace_is_fit"]:
             return True
         else:
             # CHECK 3) alignments definitely say if the trace is fit or not if the previous methods fail
-            align_conf_res = conformance_diagnostics_alignments(log, tree, return_diagnostics_dataframe=False)[0]
+            align_conf_res = conformance_diagnostics_alignments(log, tree, activity_key=activity_key, return_diagnostics_dataframe=False)[0]
             return align_conf_res["fitness"] == 1.0
 
 
@@ -639,14 +640,14 @@ def __check_is_fit_petri_net(trace, net, im, fm, activity_key=xes_constants.DEFA
     else:
         log = EventLog()
         log.append(trace)
-        tbr_conf_res = conformance_diagnostics_token_based_replay(log, net, im, fm, return_diagnostics_dataframe=False)[0]
+        tbr_conf_res = conformance_diagnostics_token_based_replay(log, net, im, fm, activity_key=activity_key, return_diagnostics_dataframe=False)[0]
         # CHECK 2) if TBR says that is fit, then return True
         # (if they say False, it might be a false negative)
         if tbr_conf_res["trace_is_fit"]:
             return True
         else:
             # CHECK 3) alignments definitely say if the trace is fit or not if the previous methods fail
-            align_conf_res = conformance_diagnostics_alignments(log, net, im, fm, return_diagnostics_dataframe=False)[0]
+            align_conf_res = conformance_diagnostics_alignments(log, net, im, fm, activity_key=activity_key, return_diagnostics_dataframe=False)[0]
             return align_conf_res["fitness"] == 1.0
 
 
@@ -677,7 +678,7 @@ def check_is_fitting(*args, activity_key=xes_constants.DEFAULT_NAME_KEY) -> bool
             trace.append(Event({activity_key: act}))
 
     if isinstance(model, ProcessTree):
-        return __check_is_fit_process_tree(trace, model)
+        return __check_is_fit_process_tree(trace, model, activity_key=activity_key)
     elif isinstance(model, tuple) and isinstance(model[0], PetriNet):
         return __check_is_fit_petri_net(trace, model[0], model[1], model[2], activity_key=activity_key)
 
-- 
2.43.0


From 729463b0ad30603355a14ef94d8be02827d210f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:12 +0000
Subject: [PATCH 24/77] fix: view_events_per_time_graph draws the given
 timestamp attribute

---
 pm4py/vis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/vis.py b/pm4py/vis.py
index c10d4d1..15c1535 100644
--- a/pm4py/vis.py
+++ b/pm4py/vis.py
@@ -656,10 +656,10 @@ def view_events_per_time_graph(log: Union[EventLog, pd.DataFrame], format: str =
     if check_is_pandas_dataframe(log):
         check_pandas_dataframe_columns(log, activity_key=activity_key, case_id_key=case_id_key, timestamp_key=timestamp_key)
         from pm4py.statistics.attributes.pandas import get as attributes_get
-        graph = attributes_get.get_kde_date_attribute(log, parameters=get_properties(log, activity_key=activity_key, case_id_key=case_id_key, timestamp_key=timestamp_key))
+        graph = attributes_get.get_kde_date_attribute(log, attribute=timestamp_key, parameters=get_properties(log, activity_key=activity_key, case_id_key=case_id_key, timestamp_key=timestamp_key))
     else:
         from pm4py.statistics.attributes.log import get as attributes_get
-        graph = attributes_get.get_kde_date_attribute(log, parameters=get_properties(log, activity_key=activity_key, case_id_key=case_id_key, timestamp_key=timestamp_key))
+        graph = attributes_get.get_kde_date_attribute(log, attribute=timestamp_key, parameters=get_properties(log, activity_key=activity_key, case_id_key=case_id_key, timestamp_key=timestamp_key))
     from pm4py.visualization.graphs import visualizer as graphs_visualizer
     graph_vis = graphs_visualizer.apply(graph[0], graph[1], variant=graphs_visualizer.Variants.DATES,
                                         parameters={"format": format})
-- 
2.43.0


From f3ce4c33c3617dc4a677e2e974c5435963cb468d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:12 +0000
Subject: [PATCH 25/77] fix: discounted A* without synchronous product uses the
 given activity key

---
 .../alignments/petri_net/variants/discounted_a_star.py     | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py b/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py
index cc9ddbd..d2aa9fd 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py
@@ -153,7 +153,8 @@ def apply(trace, petri_net, initial_marking, final_marking, parameters=None):
         expo = exec_utils.get_param_value(Parameters.EXPONENT, parameters, None)
         if expo is None:
             expo=2
-        alignment = __search_without_synchr(petri_net, initial_marking, final_marking,trace, expo=expo)
+        alignment = __search_without_synchr(petri_net, initial_marking, final_marking, trace, expo=expo,
+                                           activity_key=exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, DEFAULT_NAME_KEY))
     return alignment
 
 
@@ -406,7 +407,7 @@ def __search_with_synchr(sync_net, ini, fin, skip, ret_tuple_as_trans_desc=False
             heapq.heappush(open_set, tp)
 
 def __search_without_synchr(net, ini, fin, log_trace, skip= utils.SKIP, ret_tuple_as_trans_desc=True,
-                            max_align_time_trace=sys.maxsize,expo=2):
+                            max_align_time_trace=sys.maxsize,expo=2, activity_key=DEFAULT_NAME_KEY):
     '''
     In this function that can be called with the following way:
             alignment.algorithm.apply(trace, net, marking, fmarking,variant=ali.VERSION_DIJKSTRA_EXPONENTIAL_HEURISTIC,
@@ -415,7 +416,7 @@ def __search_without_synchr(net, ini, fin, log_trace, skip= utils.SKIP, ret_tupl
     Should we keep the entire trace or cut it?
     Notice that the heuristic on marking reachability is ON
     '''
-    trace = [log_trace[i]["concept:name"] for i in range(len(log_trace))]
+    trace = [log_trace[i][activity_key] for i in range(len(log_trace))]
     start_time = time.time()
     decorate_transitions_prepostset(net)
     decorate_places_preset_trans(net)
-- 
2.43.0


From 173af0c2c43b617ba2e56172c8f6d43829d5d1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:12 +0000
Subject: [PATCH 26/77] fix: iterating over the traces of an unformatted
 dataframe sorts its events

---
 pm4py/streaming/conversion/from_pandas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/streaming/conversion/from_pandas.py b/pm4py/streaming/conversion/from_pandas.py
index ecb911e..fb1a6b3 100644
--- a/pm4py/streaming/conversion/from_pandas.py
+++ b/pm4py/streaming/conversion/from_pandas.py
@@ -46,7 +46,7 @@ class PandasDataframeAsIterable(object):
         if not (hasattr(dataframe, "attrs") and dataframe.attrs):
             # dataframe has not been initialized through format_dataframe
             dataframe = pandas_utils.insert_index(dataframe, index_key)
-            dataframe.sort_values([case_id_key, timestamp_key, index_key])
+            dataframe = dataframe.sort_values([case_id_key, timestamp_key, index_key])
 
         cases = dataframe[case_id_key].to_numpy()
 
-- 
2.43.0


From 2231e357fc6ef369c3ed0fdee20abaa02e700942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:12 +0000
Subject: [PATCH 27/77] fix: the projection on an event attribute (DECLARE,
 frequent segments) reads the given timestamp column

---
 pm4py/algo/conformance/declare/variants/classic.py | 4 +++-
 pm4py/algo/discovery/declare/variants/classic.py   | 4 +++-
 pm4py/stats.py                                     | 2 +-
 pm4py/utils.py                                     | 5 +++--
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pm4py/algo/conformance/declare/variants/classic.py b/pm4py/algo/conformance/declare/variants/classic.py
index d74d5d9..3978fa4 100644
--- a/pm4py/algo/conformance/declare/variants/classic.py
+++ b/pm4py/algo/conformance/declare/variants/classic.py
@@ -26,6 +26,7 @@ from collections import Counter
 
 class Parameters(Enum):
     CASE_ID_KEY = constants.PARAMETER_CONSTANT_CASEID_KEY
+    TIMESTAMP_KEY = constants.PARAMETER_CONSTANT_TIMESTAMP_KEY
     ACTIVITY_KEY = constants.PARAMETER_CONSTANT_ACTIVITY_KEY
 
 
@@ -346,7 +347,8 @@ def apply(log: Union[EventLog, pd.DataFrame], model: Dict[str, Dict[Any, Dict[st
 
     import pm4py
 
-    projected_log = pm4py.project_on_event_attribute(log, activity_key, case_id_key=case_id_key)
+    timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    projected_log = pm4py.project_on_event_attribute(log, activity_key, case_id_key=case_id_key, timestamp_key=timestamp_key)
 
     ret = apply_list(projected_log, model, parameters=parameters)
 
diff --git a/pm4py/algo/discovery/declare/variants/classic.py b/pm4py/algo/discovery/declare/variants/classic.py
index 6c25f7e..7619af9 100644
--- a/pm4py/algo/discovery/declare/variants/classic.py
+++ b/pm4py/algo/discovery/declare/variants/classic.py
@@ -29,6 +29,7 @@ import numpy as np
 class Parameters(Enum):
     ACTIVITY_KEY = constants.PARAMETER_CONSTANT_ACTIVITY_KEY
     CASE_ID_KEY = constants.PARAMETER_CONSTANT_CASEID_KEY
+    TIMESTAMP_KEY = constants.PARAMETER_CONSTANT_TIMESTAMP_KEY
     CONSIDERED_ACTIVITIES = "considered_activities"
     MIN_SUPPORT_RATIO = "min_support_ratio"
     MIN_CONFIDENCE_RATIO = "min_confidence_ratio"
@@ -480,7 +481,8 @@ def form_rules_table(log: Union[EventLog, pd.DataFrame],
 
     import pm4py
 
-    projected_log = pm4py.project_on_event_attribute(log, activity_key, case_id_key=case_id_key)
+    timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    projected_log = pm4py.project_on_event_attribute(log, activity_key, case_id_key=case_id_key, timestamp_key=timestamp_key)
     activities = exec_utils.get_param_value(Parameters.CONSIDERED_ACTIVITIES, parameters, None)
 
     if activities is None:
diff --git a/pm4py/stats.py b/pm4py/stats.py
index 365971f..20b56cd 100644
--- a/pm4py/stats.py
+++ b/pm4py/stats.py
@@ -736,7 +736,7 @@ def get_frequent_trace_segments(log: Union[EventLog, pd.DataFrame], min_occ: int
     import pm4py.utils
     from prefixspan import PrefixSpan
 
-    projection = pm4py.utils.project_on_event_attribute(log, attribute_key=activity_key, case_id_key=case_id_key)
+    projection = pm4py.utils.project_on_event_attribute(log, attribute_key=activity_key, case_id_key=case_id_key, timestamp_key=timestamp_key)
     traces0 = PrefixSpan(projection).frequent(min_occ)
     traces = {}
     for x in traces0:
diff --git a/pm4py/utils.py b/pm4py/utils.py
index 92f72a1..6b0f90f 100644
--- a/pm4py/utils.py
+++ b/pm4py/utils.py
@@ -422,7 +422,7 @@ def parse_event_log_string(traces: Collection[str], sep: str = ",",
     return dataframe
 
 
-def project_on_event_attribute(log: Union[EventLog, pd.DataFrame], attribute_key=xes_constants.DEFAULT_NAME_KEY, case_id_key=None) -> \
+def project_on_event_attribute(log: Union[EventLog, pd.DataFrame], attribute_key=xes_constants.DEFAULT_NAME_KEY, case_id_key=None, timestamp_key=xes_constants.DEFAULT_TIMESTAMP_KEY) -> \
 List[List[str]]:
     """
     Project the event log on a specified event attribute. The result is a list, containing a list for each case:
@@ -442,6 +442,7 @@ List[List[str]]:
     :param log: Event log / Pandas dataframe
     :param attribute_key: The attribute to be used
     :param case_id_key: The attribute to be used as case identifier
+    :param timestamp_key: The attribute to be used as timestamp (dataframes)
     :rtype: ``List[List[str]]``
 
     .. code-block:: python3
@@ -456,7 +457,7 @@ List[List[str]]:
     if check_is_pandas_dataframe(log):
         check_pandas_dataframe_columns(log)
         from pm4py.streaming.conversion import from_pandas
-        parameters = {from_pandas.Parameters.ACTIVITY_KEY: attribute_key}
+        parameters = {from_pandas.Parameters.ACTIVITY_KEY: attribute_key, from_pandas.Parameters.TIMESTAMP_KEY: timestamp_key}
         if case_id_key is not None:
             parameters[from_pandas.Parameters.CASE_ID_KEY] = case_id_key
         it = from_pandas.apply(log, parameters=parameters)
-- 
2.43.0


From 2dbd36755f144880097e14a95fd20ab123c91527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:19 +0000
Subject: [PATCH 28/77] fix: extract_features_dataframe uses the given resource
 key

---
 pm4py/ml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/ml.py b/pm4py/ml.py
index e4b68fc..29717b7 100644
--- a/pm4py/ml.py
+++ b/pm4py/ml.py
@@ -161,7 +161,7 @@ def extract_features_dataframe(log: Union[EventLog, pd.DataFrame], str_tr_attr=N
     if kwargs is not None:
         parameters = kwargs
 
-    properties = get_properties(log, activity_key=activity_key, timestamp_key=timestamp_key, case_id_key=case_id_key)
+    properties = get_properties(log, activity_key=activity_key, timestamp_key=timestamp_key, case_id_key=case_id_key, resource_key=resource_key)
     for prop in properties:
         parameters[prop] = properties[prop]
 
-- 
2.43.0


From 40be512c53fa1b27b889f2ac6e9d9bbb727c3de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:44 +0000
Subject: [PATCH 29/77] fix: derive_msd_witnesses passes its parameters to the
 minimum self distance

---
 pm4py/algo/discovery/minimum_self_distance/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/minimum_self_distance/utils.py b/pm4py/algo/discovery/minimum_self_distance/utils.py
index caf1d2e..809ca28 100644
--- a/pm4py/algo/discovery/minimum_self_distance/utils.py
+++ b/pm4py/algo/discovery/minimum_self_distance/utils.py
@@ -56,7 +56,7 @@ def derive_msd_witnesses(log: EventLog, msd: Optional[Dict[Any, int]] = None,
     act_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters,
                                          xes_constants.DEFAULT_NAME_KEY)
     alphabet = pm4py.get_event_attribute_values(log, act_key)
-    msd = msd if msd is not None else msd_algo.apply(log, parameters)
+    msd = msd if msd is not None else msd_algo.apply(log, parameters=parameters)
     log = list(map(lambda t: list(map(lambda e: e[act_key], t)), log))
     witnesses = dict()
     for a in alphabet:
-- 
2.43.0


From 56747c02f6bbd0fe8e06175c92b9386a841257b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 30/77] fix: diagnostics dataframe of temporal profile
 conformance checking (wrong variable, missing case attribute)

---
 pm4py/algo/conformance/temporal_profile/algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/conformance/temporal_profile/algorithm.py b/pm4py/algo/conformance/temporal_profile/algorithm.py
index e4ab4b6..ce2bec6 100644
--- a/pm4py/algo/conformance/temporal_profile/algorithm.py
+++ b/pm4py/algo/conformance/temporal_profile/algorithm.py
@@ -89,13 +89,13 @@ def get_diagnostics_dataframe(elog: Union[EventLog, pd.DataFrame], conf_result:
     if parameters is None:
         parameters = {}
 
-    if pandas_utils.check_is_pandas_dataframe(log):
+    if pandas_utils.check_is_pandas_dataframe(elog):
         case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
         cases = pandas_utils.format_unique(elog[case_id_key].unique())
     else:
         elog = log_converter.apply(elog, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
         case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, xes_constants.DEFAULT_TRACEID_KEY)
-        cases = [x.attributes[case_id_key] for x in elog]
+        cases = [x.attributes[case_id_key] if case_id_key in x.attributes else x.attributes[xes_constants.DEFAULT_TRACEID_KEY] for x in elog]
 
     case = []
     source_activities = []
-- 
2.43.0


From 3c153d89ef764c248bf96b1e9cbc242ef7af49d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:17 +0000
Subject: [PATCH 31/77] fix: filter_paths_performance on dataframes does not
 pair events of different cases

---
 pm4py/algo/filtering/pandas/paths/paths_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pm4py/algo/filtering/pandas/paths/paths_filter.py b/pm4py/algo/filtering/pandas/paths/paths_filter.py
index b61e0bc..5976e24 100644
--- a/pm4py/algo/filtering/pandas/paths/paths_filter.py
+++ b/pm4py/algo/filtering/pandas/paths/paths_filter.py
@@ -129,6 +129,7 @@ def apply_performance(df: pd.DataFrame, provided_path: Tuple[str, str], paramete
     filt_dif_shifted = filt_df.shift(-1)
     filt_dif_shifted.columns = [str(col) + '_2' for col in filt_dif_shifted.columns]
     stacked_df = pandas_utils.concat([filt_df, filt_dif_shifted], axis=1)
+    stacked_df = stacked_df[stacked_df[case_id_glue] == stacked_df[case_id_glue + '_2']]
     stacked_df["@@path"] = stacked_df[attribute_key] + DEFAULT_VARIANT_SEP + stacked_df[attribute_key + "_2"]
     stacked_df = stacked_df[stacked_df["@@path"] == provided_path]
     stacked_df["@@timedelta"] = pandas_utils.get_total_seconds(stacked_df[timestamp_key + "_2"] - stacked_df[timestamp_key])
-- 
2.43.0


From 8ce603269bc5b3f346bf14277b1dd530690f3661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:28 +0000
Subject: [PATCH 32/77] fix: alignments and token replay from a PNML string
 call the importer function that exists

---
 .../alignments/decomposed/variants/recompos_maximal.py          | 2 +-
 .../alignments/petri_net/variants/dijkstra_less_memory.py       | 2 +-
 .../alignments/petri_net/variants/dijkstra_no_heuristics.py     | 2 +-
 .../alignments/petri_net/variants/discounted_a_star.py          | 2 +-
 .../alignments/petri_net/variants/state_equation_a_star.py      | 2 +-
 .../petri_net/variants/tweaked_state_equation_a_star.py         | 2 +-
 pm4py/algo/conformance/tokenreplay/variants/token_replay.py     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py b/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
index 9b371c6..5411aff 100644
--- a/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
+++ b/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
@@ -70,7 +70,7 @@ def apply_from_variants_list_petri_string(var_list, petri_net_string, parameters
 
     from pm4py.objects.petri_net.importer.variants import pnml as petri_importer
 
-    petri_net, initial_marking, final_marking = petri_importer.import_petri_from_string(petri_net_string)
+    petri_net, initial_marking, final_marking = petri_importer.import_net_from_string(petri_net_string)
 
     res = apply_from_variants_list(var_list, petri_net, initial_marking, final_marking, parameters=parameters)
     return res
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
index c457ab3..46f9f2c 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
@@ -106,7 +106,7 @@ def apply_from_variants_list_petri_string(var_list, petri_net_string, parameters
 
     from pm4py.objects.petri_net.importer.variants import pnml as petri_importer
 
-    petri_net, initial_marking, final_marking = petri_importer.import_petri_from_string(petri_net_string)
+    petri_net, initial_marking, final_marking = petri_importer.import_net_from_string(petri_net_string)
 
     res = apply_from_variants_list(var_list, petri_net, initial_marking, final_marking, parameters=parameters)
     return res
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py
index dadf6c3..4b25247 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py
@@ -228,7 +228,7 @@ def apply_from_variants_list_petri_string(var_list, petri_net_string, parameters
 
     from pm4py.objects.petri_net.importer.variants import pnml as petri_importer
 
-    petri_net, initial_marking, final_marking = petri_importer.import_petri_from_string(petri_net_string)
+    petri_net, initial_marking, final_marking = petri_importer.import_net_from_string(petri_net_string)
 
     res = apply_from_variants_list(var_list, petri_net, initial_marking, final_marking, parameters=parameters)
     return res
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py b/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py
index d2aa9fd..ad1f65b 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py
@@ -248,7 +248,7 @@ def apply_from_variants_list_petri_string(var_list, petri_net_string, parameters
 
     from pm4py.objects.petri_net.importer.variants import pnml as petri_importer
 
-    petri_net, initial_marking, final_marking = petri_importer.import_petri_from_string(petri_net_string)
+    petri_net, initial_marking, final_marking = petri_importer.import_net_from_string(petri_net_string)
 
     res = apply_from_variants_list(var_list, petri_net, initial_marking, final_marking, parameters=parameters)
     return res
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py b/pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py
index c33526f..e2b0f0d 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py
@@ -289,7 +289,7 @@ def apply_from_variants_list_petri_string(var_list, petri_net_string, parameters
 
     from pm4py.objects.petri_net.importer.variants import pnml as petri_importer
 
-    petri_net, initial_marking, final_marking = petri_importer.import_petri_from_string(petri_net_string)
+    petri_net, initial_marking, final_marking = petri_importer.import_net_from_string(petri_net_string)
 
     res = apply_from_variants_list(var_list, petri_net, initial_marking, final_marking, parameters=parameters)
     return res
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py b/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
index d9c2804..7196345 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
@@ -281,7 +281,7 @@ def apply_from_variants_list_petri_string(var_list, petri_net_string, parameters
 
     from pm4py.objects.petri_net.importer.variants import pnml as petri_importer
 
-    petri_net, initial_marking, final_marking = petri_importer.import_petri_from_string(petri_net_string)
+    petri_net, initial_marking, final_marking = petri_importer.import_net_from_string(petri_net_string)
 
     res = apply_from_variants_list(var_list, petri_net, initial_marking, final_marking, parameters=parameters)
     return res
diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index 9fac2b7..17c37ae 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -1209,7 +1209,7 @@ def apply_variants_list_petri_string(variants_list, petri_string, parameters=Non
 
     from pm4py.objects.petri_net.importer.variants import pnml as petri_importer
 
-    net, im, fm = petri_importer.import_petri_from_string(petri_string, parameters=parameters)
+    net, im, fm = petri_importer.import_net_from_string(petri_string, parameters=parameters)
 
     return apply_variants_list(variants_list, net, im, fm, parameters=parameters)
 
-- 
2.43.0


From 8577cc60b0dc8964e33920af68e4a3e2928151fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:28 +0000
Subject: [PATCH 33/77] fix: alignment-based fitness of a single trace reads
 the standard move cost where it is defined

---
 .../algo/evaluation/replay_fitness/variants/alignment_based.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/evaluation/replay_fitness/variants/alignment_based.py b/pm4py/algo/evaluation/replay_fitness/variants/alignment_based.py
index 3efa8db..f6695e2 100644
--- a/pm4py/algo/evaluation/replay_fitness/variants/alignment_based.py
+++ b/pm4py/algo/evaluation/replay_fitness/variants/alignment_based.py
@@ -16,6 +16,7 @@
 '''
 from pm4py.algo.conformance.alignments.petri_net import algorithm as alignments
 from pm4py.algo.conformance.alignments.decomposed import algorithm as decomp_alignments
+from pm4py.objects.petri_net.utils import align_utils
 from pm4py.util import exec_utils
 from enum import Enum
 from pm4py.util import constants
@@ -147,7 +148,7 @@ def apply_trace(trace: Trace, petri_net: PetriNet, initial_marking: Marking, fin
     """
     alignment = alignments.apply_trace(trace, petri_net, initial_marking, final_marking,
                                        {Parameters.ACTIVITY_KEY: activity_key})
-    fixed_costs = alignment['cost'] // alignments.utils.STD_MODEL_LOG_MOVE_COST
+    fixed_costs = alignment['cost'] // align_utils.STD_MODEL_LOG_MOVE_COST
     if best_worst > 0:
         fitness = 1 - (fixed_costs / best_worst)
     else:
-- 
2.43.0


From 1cd666d12fd5593277a3599a0a19effd9bb3112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:28 +0000
Subject: [PATCH 34/77] fix: execution of a BPMN node passes the BPMN graph on

---
 pm4py/objects/bpmn/semantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/bpmn/semantics.py b/pm4py/objects/bpmn/semantics.py
index 0a42086..8b91307 100644
--- a/pm4py/objects/bpmn/semantics.py
+++ b/pm4py/objects/bpmn/semantics.py
@@ -39,7 +39,7 @@ def execute(node, bpmn, m):
     if not is_enabled(node, bpmn, m):
         return None
 
-    return weak_execute(node, m)
+    return weak_execute(node, m, bpmn)
 
 
 def try_to_execute(node, bpmn, m):
-- 
2.43.0


From e2ac4695fdf2c021fa46e6f4ebdc68c7a9333fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:28 +0000
Subject: [PATCH 35/77] fix: missing import hid the solver selection on
 ARM-based Linux

---
 pm4py/util/lp/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pm4py/util/lp/solver.py b/pm4py/util/lp/solver.py
index 4de177c..47cef80 100644
--- a/pm4py/util/lp/solver.py
+++ b/pm4py/util/lp/solver.py
@@ -15,6 +15,7 @@
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
 import importlib.util
+import os
 from enum import Enum
 
 
-- 
2.43.0


From 83749688fbd39b585b2f3b27a87e904cc840a206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:28 +0000
Subject: [PATCH 36/77] fix: the timeline visualization imports a module that
 does not exist

---
 pm4py/visualization/dfg/variants/timeline.py | 617 +++++++++----------
 1 file changed, 308 insertions(+), 309 deletions(-)

diff --git a/pm4py/visualization/dfg/variants/timeline.py b/pm4py/visualization/dfg/variants/timeline.py
index 2fe15c3..6716280 100644
--- a/pm4py/visualization/dfg/variants/timeline.py
+++ b/pm4py/visualization/dfg/variants/timeline.py
@@ -1,309 +1,308 @@
-'''
-    This file is part of PM4Py (More Info: https://pm4py.fit.fraunhofer.de).
-
-    PM4Py is free software: you can redistribute it and/or modify
-    it under the terms of the GNU General Public License as published by
-    the Free Software Foundation, either version 3 of the License, or
-    (at your option) any later version.
-
-    PM4Py is distributed in the hope that it will be useful,
-    but WITHOUT ANY WARRANTY; without even the implied warranty of
-    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-    GNU General Public License for more details.
-
-    You should have received a copy of the GNU General Public License
-    along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
-'''
-
-import tempfile
-import re
-import warnings
-from copy import copy
-
-from graphviz import Digraph
-from graphviz.dot import node
-
-from pm4py.statistics.attributes.log import get as attr_get
-from pm4py.objects.dfg.utils import dfg_utils
-from pm4py.util import xes_constants as xes
-from pm4py.visualization.common.utils import *
-from pm4py.util import exec_utils
-from pm4py.statistics.sojourn_time.log import get as soj_time_get
-from enum import Enum
-from pm4py.util import constants
-from typing import Optional, Dict, Any, Tuple, no_type_check_decorator
-from pm4py.objects.log.obj import EventLog
-from collections import Counter
-
-
-class Parameters(Enum):
-    ACTIVITY_KEY = constants.PARAMETER_CONSTANT_ACTIVITY_KEY
-    FORMAT = "format"
-    MAX_NO_EDGES_IN_DIAGRAM = "maxNoOfEdgesInDiagram"
-    START_ACTIVITIES = "start_activities"
-    END_ACTIVITIES = "end_activities"
-    TIMESTAMP_KEY = constants.PARAMETER_CONSTANT_TIMESTAMP_KEY
-    START_TIMESTAMP_KEY = constants.PARAMETER_CONSTANT_START_TIMESTAMP_KEY
-    FONT_SIZE = "font_size"
-    BGCOLOR = "bgcolor"
-    STAT_LOCALE = "stat_locale"
-
-
-def get_min_max_value(dfg):
-    min_value = 9999999999
-    max_value = -1
-
-    for edge in dfg:
-        if dfg[edge] < min_value:
-            min_value = dfg[edge]
-        if dfg[edge] > max_value:
-            max_value = dfg[edge]
-
-    return min_value, max_value
-
-
-def assign_penwidth_edges(dfg):
-
-    penwidth = {}
-    min_value, max_value = get_min_max_value(dfg)
-    for edge in dfg:
-        v0 = dfg[edge]
-        v1 = get_arc_penwidth(v0, min_value, max_value)
-        penwidth[edge] = str(v1)
-
-    return penwidth
-
-
-def get_activities_color(activities_count):
-
-    activities_color = {}
-
-    min_value, max_value = get_min_max_value(activities_count)
-
-    for ac in activities_count:
-        v0 = activities_count[ac]
-        """transBaseColor = int(
-            255 - 100 * (v0 - min_value) / (max_value - min_value + 0.00001))
-        transBaseColorHex = str(hex(transBaseColor))[2:].upper()
-        v1 = "#" + transBaseColorHex + transBaseColorHex + "FF"""
-
-        v1 = get_trans_freq_color(v0, min_value, max_value)
-
-        activities_color[ac] = v1
-
-    return activities_color
-
-
-def graphviz_visualization(activities_count, dfg, dfg_time : Dict, image_format="png", measure="timeline",
-                           max_no_of_edges_in_diagram=100000, start_activities=None, end_activities=None, soj_time=None,
-                            font_size="12", bgcolor=constants.DEFAULT_BGCOLOR, stat_locale=None):
-    if start_activities is None:
-        start_activities = {}
-    if end_activities is None:
-        end_activities = {}
-    if stat_locale is None:
-        stat_locale = {}
-
-    filename = tempfile.NamedTemporaryFile(suffix='.gv')
-    viz = Digraph("", filename=filename.name, engine='dot', graph_attr={'bgcolor': bgcolor})
-
-    '''first, remove edges in diagram that exceeds the maximum number of edges in the diagram'''
-    dfg_key_value_list = []
-    for edge in dfg:
-        dfg_key_value_list.append([edge, dfg[edge]])
-
-    '''More fine grained sorting to avoid that edges that are below the threshold are 
-    undeterministically removed'''
-    dfg_key_value_list = sorted(dfg_key_value_list, key=lambda x: (x[1], x[0][0], x[0][1]), reverse=True)
-    dfg_key_value_list = dfg_key_value_list[0:min(len(dfg_key_value_list), max_no_of_edges_in_diagram)]
-    dfg_allowed_keys = [x[0] for x in dfg_key_value_list]
-    dfg_keys = list(dfg.keys())
-    for edge in dfg_keys:
-        if edge not in dfg_allowed_keys:
-            del dfg[edge]
-
-    # calculate edges penwidth
-    penwidth = assign_penwidth_edges(dfg)
-    activities_in_dfg = set()
-    activities_count_int = copy(activities_count)
-
-    for edge in dfg:
-        activities_in_dfg.add(edge[0])
-        activities_in_dfg.add(edge[1])
-
-    # assign attributes color
-    activities_color = get_activities_color(activities_count_int)
-
-    # represent nodes
-    viz.attr('node', shape='rect')
-
-    if len(activities_in_dfg) == 0:
-        activities_to_include = sorted(list(set(activities_count_int)))
-    else:
-        # take unique elements as a list not as a set (in this way, nodes are added in the same order to the graph)
-        activities_to_include = sorted(list(set(activities_in_dfg)))
-
-
-    dfg_timestamps = sorted(dfg_time.items(), key = lambda x:x[1])
-    act_time_map = {}
-    timestamps_to_include = []
-    hash_timestamps_to_include = []
-
-    for dfg_timestamp in dfg_timestamps:
-        act = dfg_timestamp[0]
-        timestamp = dfg_timestamp[1].total_seconds()
-        stat = human_readable_stat(timestamp)
-        if stat not in timestamps_to_include:
-            viz.node(str(hash(stat)), str(stat), shape='circle', style='filled', fillcolor='pink')
-            hash_timestamps_to_include.append(str(hash(stat)))
-        timestamps_to_include.append(stat)
-        act_time_map[act] = str(hash(stat))
-
-    '''So far, we have created nodes for each timeline. Each node gets a unique value of the readable statistics
-    a dictionary (act_time_map) is created having keys as activity and value as the hash of the stat (human readable time).
-    There exists another dictionary (timestamp_hash) that has the hash value of the stat as key and an empty list as the value.
-    In the next step, we fill this empty list by those activities that are repeated having the same roudned time value.
-    The goal is to have a dictionary having the timestamps as keys and a list of activities as values. 
-    '''
-
-    time_act_dict = {}
-    for key, value in act_time_map.items():
-        if value in time_act_dict:
-            time_act_dict[value].append(key)
-        else:
-            time_act_dict[value] = [ key ]
-
-
-    ''' calculate how long each edge should be to make the edges proportional alomg the timeilne axis..'''
-    minlen_list = []
-
-    minlen_aux =[]
-    [minlen_aux.append(item) for item in timestamps_to_include if item not in minlen_aux]
-
-    for i, t in enumerate(minlen_aux[:-1]):
-        int1 = int(re.search(r'\d+', minlen_aux[i]).group())
-        int2 = int(re.search(r'\d+', minlen_aux[i+1]).group())
-        minlen = int2 - int1
-        if(minlen<1):
-            minlen = 1
-        minlen_list.append(minlen)
-
-
-    #create edges for the timeline
-    edges_in_timeline = []
-    for i, t in enumerate(hash_timestamps_to_include[:-1]):
-        minlen = str(minlen_list[i])
-        edge = (t, hash_timestamps_to_include[i+1])
-        edges_in_timeline.append(edge)
-        viz.edge(edge[0],edge[1], minlen=minlen)
-
-
-    '''Now we have the values that need to go on timeline and we have what activities are supposed to be aligned with what timestamp.
-    Next step is calculating how long each edge should be to make the edges proportional along the timeilne axis..'''
-
-    activities_map = {}
-
-    #nodes get defined here 
-    for act in activities_to_include:
-        if "frequency" in measure and act in activities_count_int:
-            viz.node(str(hash(act)), act + " (" + str(activities_count_int[act]) + ")", style='filled',
-                     fillcolor=activities_color[act], fontsize=font_size)
-            activities_map[act] = str(hash(act))
-        else:
-            stat_string = human_readable_stat(soj_time[act], stat_locale)
-            viz.node(str(hash(act)), act + f" ({stat_string})", fontsize=font_size)
-            activities_map[act] = str(hash(act))
-
-    # make edges addition always in the same order
-    dfg_edges = sorted(list(dfg.keys()))
-
-    # represent edges
-    for edge in dfg_edges:
-        if "frequency" in measure:
-            label = str(dfg[edge])
-        else:
-            label = human_readable_stat(dfg[edge], stat_locale)
-        viz.edge(str(hash(edge[0])), str(hash(edge[1])), label=label, penwidth=str(penwidth[edge]), fontsize=font_size)
-
-    start_activities_to_include = [act for act in start_activities if act in activities_map]
-    end_activities_to_include = [act for act in end_activities if act in activities_map]
-
-    if start_activities_to_include:
-        viz.node("@@startnode", "<&#9679;>", shape='circle', fontsize="34")
-        for act in start_activities_to_include:
-            label = str(start_activities[act]) if isinstance(start_activities, dict) else ""
-            viz.edge("@@startnode", activities_map[act], label=label, fontsize=font_size)
-
-    if end_activities_to_include:
-        viz.node("@@endnode", "<&#9632;>", shape='doublecircle', fontsize="32")
-        for act in end_activities_to_include:
-            label = str(end_activities[act]) if isinstance(end_activities, dict) else ""
-            viz.edge(activities_map[act], "@@endnode", label=label, fontsize=font_size)
-
-
-    '''Next, we create subgraphs & include those nodes which are to be aligned on the same rank. 
-    Here, we include one node from the timeline axis and 1 or more nodes from the DFG. 
-    We use the information of what activities are supposed to go on same level from 
-    previous caluclation (i.e. we use time_Act_dict)
-
-    We merge the dictiomaries of act_time_map with activities_map to ensure the alignment is 
-    done on the activity node referencing to the same object.'''
- 
-    from collections import defaultdict
-    dd = defaultdict(list)
-
-    for d in (activities_map, act_time_map): # you can list as many input dicts as you want here
-        for key, value in d.items():
-            dd[key].append(value)
-
-
-    for hash_time in hash_timestamps_to_include:
-        s = Digraph(str(hash_time))
-        s.attr(rank='same')
-        s.node(hash_time)
-        for values in time_act_dict[hash_time]:
-            s.node(dd[values][0])
-            try:
-                s.node(dd[values][1])
-            except:
-                warnings.warn(dd[values])
-
-
-        viz.subgraph(s)
-
-    viz.attr(overlap='true')
-    viz.format = image_format
-    return viz
-
-
-def apply(dfg: Dict[Tuple[str, str], int], dfg_time : Dict, log: EventLog = None, parameters: Optional[Dict[Any, Any]] = None, activities_count : Dict[str, int] = None, soj_time: Dict[str, float] = None) -> Digraph: 
-
-    if parameters is None:
-        parameters = {}
-
-    activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes.DEFAULT_NAME_KEY)
-    image_format = exec_utils.get_param_value(Parameters.FORMAT, parameters, "png")
-    max_no_of_edges_in_diagram = exec_utils.get_param_value(Parameters.MAX_NO_EDGES_IN_DIAGRAM, parameters, 100000)
-    start_activities = exec_utils.get_param_value(Parameters.START_ACTIVITIES, parameters, {})
-    end_activities = exec_utils.get_param_value(Parameters.END_ACTIVITIES, parameters, {})
-    font_size = exec_utils.get_param_value(Parameters.FONT_SIZE, parameters, 12)
-    font_size = str(font_size)
-    activities = dfg_utils.get_activities_from_dfg(dfg)
-    bgcolor = exec_utils.get_param_value(Parameters.BGCOLOR, parameters, constants.DEFAULT_BGCOLOR)
-    stat_locale = exec_utils.get_param_value(Parameters.STAT_LOCALE, parameters, {})
-    if activities_count is None:
-        if log is not None:
-            activities_count = attr_get.get_attribute_values(log, activity_key, parameters=parameters)
-        else:
-            activities_count = Counter({key: 0 for key in activities})
-            for el in dfg:
-                activities_count[el[1]] += dfg[el]
-            if isinstance(start_activities, dict):
-                for act in start_activities:
-                    activities_count[act] += start_activities[act]
-
-
-    return graphviz_visualization(activities_count, dfg, dfg_time, image_format=image_format, measure="frequency",
-                                  max_no_of_edges_in_diagram=max_no_of_edges_in_diagram,
-                                  start_activities=start_activities, end_activities=end_activities, 
-                                  font_size=font_size, bgcolor=bgcolor, stat_locale=stat_locale)
+'''
+    This file is part of PM4Py (More Info: https://pm4py.fit.fraunhofer.de).
+
+    PM4Py is free software: you can redistribute it and/or modify
+    it under the terms of the GNU General Public License as published by
+    the Free Software Foundation, either version 3 of the License, or
+    (at your option) any later version.
+
+    PM4Py is distributed in the hope that it will be useful,
+    but WITHOUT ANY WARRANTY; without even the implied warranty of
+    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+    GNU General Public License for more details.
+
+    You should have received a copy of the GNU General Public License
+    along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
+'''
+
+import tempfile
+import re
+import warnings
+from copy import copy
+
+from graphviz import Digraph
+from graphviz.dot import node
+
+from pm4py.statistics.attributes.log import get as attr_get
+from pm4py.objects.dfg.utils import dfg_utils
+from pm4py.util import xes_constants as xes
+from pm4py.visualization.common.utils import *
+from pm4py.util import exec_utils
+from enum import Enum
+from pm4py.util import constants
+from typing import Optional, Dict, Any, Tuple, no_type_check_decorator
+from pm4py.objects.log.obj import EventLog
+from collections import Counter
+
+
+class Parameters(Enum):
+    ACTIVITY_KEY = constants.PARAMETER_CONSTANT_ACTIVITY_KEY
+    FORMAT = "format"
+    MAX_NO_EDGES_IN_DIAGRAM = "maxNoOfEdgesInDiagram"
+    START_ACTIVITIES = "start_activities"
+    END_ACTIVITIES = "end_activities"
+    TIMESTAMP_KEY = constants.PARAMETER_CONSTANT_TIMESTAMP_KEY
+    START_TIMESTAMP_KEY = constants.PARAMETER_CONSTANT_START_TIMESTAMP_KEY
+    FONT_SIZE = "font_size"
+    BGCOLOR = "bgcolor"
+    STAT_LOCALE = "stat_locale"
+
+
+def get_min_max_value(dfg):
+    min_value = 9999999999
+    max_value = -1
+
+    for edge in dfg:
+        if dfg[edge] < min_value:
+            min_value = dfg[edge]
+        if dfg[edge] > max_value:
+            max_value = dfg[edge]
+
+    return min_value, max_value
+
+
+def assign_penwidth_edges(dfg):
+
+    penwidth = {}
+    min_value, max_value = get_min_max_value(dfg)
+    for edge in dfg:
+        v0 = dfg[edge]
+        v1 = get_arc_penwidth(v0, min_value, max_value)
+        penwidth[edge] = str(v1)
+
+    return penwidth
+
+
+def get_activities_color(activities_count):
+
+    activities_color = {}
+
+    min_value, max_value = get_min_max_value(activities_count)
+
+    for ac in activities_count:
+        v0 = activities_count[ac]
+        """transBaseColor = int(
+            255 - 100 * (v0 - min_value) / (max_value - min_value + 0.00001))
+        transBaseColorHex = str(hex(transBaseColor))[2:].upper()
+        v1 = "#" + transBaseColorHex + transBaseColorHex + "FF"""
+
+        v1 = get_trans_freq_color(v0, min_value, max_value)
+
+        activities_color[ac] = v1
+
+    return activities_color
+
+
+def graphviz_visualization(activities_count, dfg, dfg_time : Dict, image_format="png", measure="timeline",
+                           max_no_of_edges_in_diagram=100000, start_activities=None, end_activities=None, soj_time=None,
+                            font_size="12", bgcolor=constants.DEFAULT_BGCOLOR, stat_locale=None):
+    if start_activities is None:
+        start_activities = {}
+    if end_activities is None:
+        end_activities = {}
+    if stat_locale is None:
+        stat_locale = {}
+
+    filename = tempfile.NamedTemporaryFile(suffix='.gv')
+    viz = Digraph("", filename=filename.name, engine='dot', graph_attr={'bgcolor': bgcolor})
+
+    '''first, remove edges in diagram that exceeds the maximum number of edges in the diagram'''
+    dfg_key_value_list = []
+    for edge in dfg:
+        dfg_key_value_list.append([edge, dfg[edge]])
+
+    '''More fine grained sorting to avoid that edges that are below the threshold are 
+    undeterministically removed'''
+    dfg_key_value_list = sorted(dfg_key_value_list, key=lambda x: (x[1], x[0][0], x[0][1]), reverse=True)
+    dfg_key_value_list = dfg_key_value_list[0:min(len(dfg_key_value_list), max_no_of_edges_in_diagram)]
+    dfg_allowed_keys = [x[0] for x in dfg_key_value_list]
+    dfg_keys = list(dfg.keys())
+    for edge in dfg_keys:
+        if edge not in dfg_allowed_keys:
+            del dfg[edge]
+
+    # calculate edges penwidth
+    penwidth = assign_penwidth_edges(dfg)
+    activities_in_dfg = set()
+    activities_count_int = copy(activities_count)
+
+    for edge in dfg:
+        activities_in_dfg.add(edge[0])
+        activities_in_dfg.add(edge[1])
+
+    # assign attributes color
+    activities_color = get_activities_color(activities_count_int)
+
+    # represent nodes
+    viz.attr('node', shape='rect')
+
+    if len(activities_in_dfg) == 0:
+        activities_to_include = sorted(list(set(activities_count_int)))
+    else:
+        # take unique elements as a list not as a set (in this way, nodes are added in the same order to the graph)
+        activities_to_include = sorted(list(set(activities_in_dfg)))
+
+
+    dfg_timestamps = sorted(dfg_time.items(), key = lambda x:x[1])
+    act_time_map = {}
+    timestamps_to_include = []
+    hash_timestamps_to_include = []
+
+    for dfg_timestamp in dfg_timestamps:
+        act = dfg_timestamp[0]
+        timestamp = dfg_timestamp[1].total_seconds()
+        stat = human_readable_stat(timestamp)
+        if stat not in timestamps_to_include:
+            viz.node(str(hash(stat)), str(stat), shape='circle', style='filled', fillcolor='pink')
+            hash_timestamps_to_include.append(str(hash(stat)))
+        timestamps_to_include.append(stat)
+        act_time_map[act] = str(hash(stat))
+
+    '''So far, we have created nodes for each timeline. Each node gets a unique value of the readable statistics
+    a dictionary (act_time_map) is created having keys as activity and value as the hash of the stat (human readable time).
+    There exists another dictionary (timestamp_hash) that has the hash value of the stat as key and an empty list as the value.
+    In the next step, we fill this empty list by those activities that are repeated having the same roudned time value.
+    The goal is to have a dictionary having the timestamps as keys and a list of activities as values. 
+    '''
+
+    time_act_dict = {}
+    for key, value in act_time_map.items():
+        if value in time_act_dict:
+            time_act_dict[value].append(key)
+        else:
+            time_act_dict[value] = [ key ]
+
+
+    ''' calculate how long each edge should be to make the edges proportional alomg the timeilne axis..'''
+    minlen_list = []
+
+    minlen_aux =[]
+    [minlen_aux.append(item) for item in timestamps_to_include if item not in minlen_aux]
+
+    for i, t in enumerate(minlen_aux[:-1]):
+        int1 = int(re.search(r'\d+', minlen_aux[i]).group())
+        int2 = int(re.search(r'\d+', minlen_aux[i+1]).group())
+        minlen = int2 - int1
+        if(minlen<1):
+            minlen = 1
+        minlen_list.append(minlen)
+
+
+    #create edges for the timeline
+    edges_in_timeline = []
+    for i, t in enumerate(hash_timestamps_to_include[:-1]):
+        minlen = str(minlen_list[i])
+        edge = (t, hash_timestamps_to_include[i+1])
+        edges_in_timeline.append(edge)
+        viz.edge(edge[0],edge[1], minlen=minlen)
+
+
+    '''Now we have the values that need to go on timeline and we have what activities are supposed to be aligned with what timestamp.
+    Next step is calculating how long each edge should be to make the edges proportional along the timeilne axis..'''
+
+    activities_map = {}
+
+    #nodes get defined here 
+    for act in activities_to_include:
+        if "frequency" in measure and act in activities_count_int:
+            viz.node(str(hash(act)), act + " (" + str(activities_count_int[act]) + ")", style='filled',
+                     fillcolor=activities_color[act], fontsize=font_size)
+            activities_map[act] = str(hash(act))
+        else:
+            stat_string = human_readable_stat(soj_time[act], stat_locale)
+            viz.node(str(hash(act)), act + f" ({stat_string})", fontsize=font_size)
+            activities_map[act] = str(hash(act))
+
+    # make edges addition always in the same order
+    dfg_edges = sorted(list(dfg.keys()))
+
+    # represent edges
+    for edge in dfg_edges:
+        if "frequency" in measure:
+            label = str(dfg[edge])
+        else:
+            label = human_readable_stat(dfg[edge], stat_locale)
+        viz.edge(str(hash(edge[0])), str(hash(edge[1])), label=label, penwidth=str(penwidth[edge]), fontsize=font_size)
+
+    start_activities_to_include = [act for act in start_activities if act in activities_map]
+    end_activities_to_include = [act for act in end_activities if act in activities_map]
+
+    if start_activities_to_include:
+        viz.node("@@startnode", "<&#9679;>", shape='circle', fontsize="34")
+        for act in start_activities_to_include:
+            label = str(start_activities[act]) if isinstance(start_activities, dict) else ""
+            viz.edge("@@startnode", activities_map[act], label=label, fontsize=font_size)
+
+    if end_activities_to_include:
+        viz.node("@@endnode", "<&#9632;>", shape='doublecircle', fontsize="32")
+        for act in end_activities_to_include:
+            label = str(end_activities[act]) if isinstance(end_activities, dict) else ""
+            viz.edge(activities_map[act], "@@endnode", label=label, fontsize=font_size)
+
+
+    '''Next, we create subgraphs & include those nodes which are to be aligned on the same rank. 
+    Here, we include one node from the timeline axis and 1 or more nodes from the DFG. 
+    We use the information of what activities are supposed to go on same level from 
+    previous caluclation (i.e. we use time_Act_dict)
+
+    We merge the dictiomaries of act_time_map with activities_map to ensure the alignment is 
+    done on the activity node referencing to the same object.'''
+ 
+    from collections import defaultdict
+    dd = defaultdict(list)
+
+    for d in (activities_map, act_time_map): # you can list as many input dicts as you want here
+        for key, value in d.items():
+            dd[key].append(value)
+
+
+    for hash_time in hash_timestamps_to_include:
+        s = Digraph(str(hash_time))
+        s.attr(rank='same')
+        s.node(hash_time)
+        for values in time_act_dict[hash_time]:
+            s.node(dd[values][0])
+            try:
+                s.node(dd[values][1])
+            except:
+                warnings.warn(dd[values])
+
+
+        viz.subgraph(s)
+
+    viz.attr(overlap='true')
+    viz.format = image_format
+    return viz
+
+
+def apply(dfg: Dict[Tuple[str, str], int], dfg_time : Dict, log: EventLog = None, parameters: Optional[Dict[Any, Any]] = None, activities_count : Dict[str, int] = None, soj_time: Dict[str, float] = None) -> Digraph: 
+
+    if parameters is None:
+        parameters = {}
+
+    activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes.DEFAULT_NAME_KEY)
+    image_format = exec_utils.get_param_value(Parameters.FORMAT, parameters, "png")
+    max_no_of_edges_in_diagram = exec_utils.get_param_value(Parameters.MAX_NO_EDGES_IN_DIAGRAM, parameters, 100000)
+    start_activities = exec_utils.get_param_value(Parameters.START_ACTIVITIES, parameters, {})
+    end_activities = exec_utils.get_param_value(Parameters.END_ACTIVITIES, parameters, {})
+    font_size = exec_utils.get_param_value(Parameters.FONT_SIZE, parameters, 12)
+    font_size = str(font_size)
+    activities = dfg_utils.get_activities_from_dfg(dfg)
+    bgcolor = exec_utils.get_param_value(Parameters.BGCOLOR, parameters, constants.DEFAULT_BGCOLOR)
+    stat_locale = exec_utils.get_param_value(Parameters.STAT_LOCALE, parameters, {})
+    if activities_count is None:
+        if log is not None:
+            activities_count = attr_get.get_attribute_values(log, activity_key, parameters=parameters)
+        else:
+            activities_count = Counter({key: 0 for key in activities})
+            for el in dfg:
+                activities_count[el[1]] += dfg[el]
+            if isinstance(start_activities, dict):
+                for act in start_activities:
+                    activities_count[act] += start_activities[act]
+
+
+    return graphviz_visualization(activities_count, dfg, dfg_time, image_format=image_format, measure="frequency",
+                                  max_no_of_edges_in_diagram=max_no_of_edges_in_diagram,
+                                  start_activities=start_activities, end_activities=end_activities, 
+                                  font_size=font_size, bgcolor=bgcolor, stat_locale=stat_locale)
-- 
2.43.0


From 61605243f5ba1dd3ecb751c548f24597432808fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:34 +0000
Subject: [PATCH 37/77] fix: the case size and case performance filters keep
 the metadata of the log

---
 pm4py/algo/filtering/log/cases/case_filter.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/filtering/log/cases/case_filter.py b/pm4py/algo/filtering/log/cases/case_filter.py
index a10a54b..9d20c16 100644
--- a/pm4py/algo/filtering/log/cases/case_filter.py
+++ b/pm4py/algo/filtering/log/cases/case_filter.py
@@ -54,7 +54,9 @@ def filter_on_case_performance(log: EventLog, inf_perf: float, sup_perf: float,
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
 
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, DEFAULT_TIMESTAMP_KEY)
-    filtered_log = EventLog([trace for trace in log if satisfy_perf(trace, inf_perf, sup_perf, timestamp_key)])
+    filtered_log = EventLog([trace for trace in log if satisfy_perf(trace, inf_perf, sup_perf, timestamp_key)],
+                            attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
+                            omni_present=log.omni_present, properties=log.properties)
     return filtered_log
 
 
@@ -76,7 +78,9 @@ def filter_on_ncases(log: EventLog, max_no_cases: int = 1000) -> EventLog:
     """
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG)
 
-    filtered_log = EventLog(log[:min(len(log), max_no_cases)])
+    filtered_log = EventLog(log[:min(len(log), max_no_cases)],
+                            attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
+                            omni_present=log.omni_present, properties=log.properties)
     return filtered_log
 
 
@@ -101,9 +105,13 @@ def filter_on_case_size(log: EventLog, min_case_size: int = 2, max_case_size=Non
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG)
 
     if max_case_size is not None:
-        filtered_log = EventLog([trace for trace in log if min_case_size <= len(trace) <= max_case_size])
+        filtered_log = EventLog([trace for trace in log if min_case_size <= len(trace) <= max_case_size],
+                                attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
+                                omni_present=log.omni_present, properties=log.properties)
     else:
-        filtered_log = EventLog([trace for trace in log if len(trace) >= min_case_size])
+        filtered_log = EventLog([trace for trace in log if len(trace) >= min_case_size],
+                                attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
+                                omni_present=log.omni_present, properties=log.properties)
     return filtered_log
 
 
-- 
2.43.0


From ef36b602a4b3f084aadffc75741b5bbf080c91fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:34 +0000
Subject: [PATCH 38/77] fix: the sublogs of a clustering keep the metadata of
 the log

---
 pm4py/algo/clustering/profiles/variants/sklearn_profiles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/clustering/profiles/variants/sklearn_profiles.py b/pm4py/algo/clustering/profiles/variants/sklearn_profiles.py
index ac90a07..ea4ec53 100644
--- a/pm4py/algo/clustering/profiles/variants/sklearn_profiles.py
+++ b/pm4py/algo/clustering/profiles/variants/sklearn_profiles.py
@@ -78,7 +78,8 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], parameters: Optional[
         clust_idxs[clusters[i]].append(i)
 
     for i in clust_idxs:
-        clust_log = EventLog()
+        clust_log = EventLog(attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
+                             omni_present=log.omni_present, properties=log.properties)
         for j in clust_idxs[i]:
             clust_log.append(log[j])
         #clust_log = log_converter.apply(clust_log, variant=log_converter.Variants.TO_DATA_FRAME, parameters=parameters)
-- 
2.43.0


From 99a0ab98f70b1356b42b1484f9aca8b91a5d3678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:34 +0000
Subject: [PATCH 39/77] fix: sampling the events of a stream keeps its
 properties

---
 pm4py/objects/log/util/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/log/util/sampling.py b/pm4py/objects/log/util/sampling.py
index 1ba9ca8..01b6733 100644
--- a/pm4py/objects/log/util/sampling.py
+++ b/pm4py/objects/log/util/sampling.py
@@ -36,7 +36,7 @@ def sample_stream(event_log, no_events=100):
         Filtered log
     """
     new_log = EventStream(attributes=event_log.attributes, extensions=event_log.extensions, globals=event_log.omni_present,
-                          classifiers=event_log.classifiers)
+                          classifiers=event_log.classifiers, properties=event_log.properties)
     new_log._list = random.sample(event_log, min(no_events, len(event_log)))
     return new_log
 
-- 
2.43.0


From 35a18ef6c4e9b2c40914609cc31a1beaf040c71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:11 +0000
Subject: [PATCH 40/77] fix: filter_traces_attribute_in_timeframe keeps the
 properties of the log

---
 pm4py/algo/filtering/log/timestamp/timestamp_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/filtering/log/timestamp/timestamp_filter.py b/pm4py/algo/filtering/log/timestamp/timestamp_filter.py
index 9200872..be5e4af 100644
--- a/pm4py/algo/filtering/log/timestamp/timestamp_filter.py
+++ b/pm4py/algo/filtering/log/timestamp/timestamp_filter.py
@@ -305,7 +305,7 @@ def filter_traces_attribute_in_timeframe(log: EventLog, attribute: str, attribut
     filtered_log = EventLog([trace for trace in log if
                              has_attribute_in_timeframe(trace, attribute, attribute_value, dt1, dt2, timestamp_key)],
                             attributes=log.attributes, extensions=log.extensions, omni_present=log.omni_present,
-                            classifiers=log.classifiers)
+                            classifiers=log.classifiers, properties=log.properties)
     return filtered_log
 
 
-- 
2.43.0


From 61f24363839d19d619c6fa5af12098ef81480178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:13 +0000
Subject: [PATCH 41/77] fix: merging duplicate events of an OCEL renames them
 in the event-to-event links as well

---
 pm4py/ocel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pm4py/ocel.py b/pm4py/ocel.py
index 72cff31..4a94b0f 100644
--- a/pm4py/ocel.py
+++ b/pm4py/ocel.py
@@ -472,8 +472,11 @@ def ocel_merge_duplicates(ocel: OCEL, have_common_object: Optional[bool]=False)
     relations = relations.groupby(ocel.event_id_column).first()["@@groupn"].to_dict()
     relations = {x: val_corr[y] for x, y in relations.items()}
 
-    ocel.events[ocel.event_id_column] = ocel.events[ocel.event_id_column].map(relations)
+    # the events that are not related to any object keep their identifier
+    ocel.events[ocel.event_id_column] = ocel.events[ocel.event_id_column].map(lambda x: relations.get(x, x))
     ocel.relations[ocel.event_id_column] = ocel.relations[ocel.event_id_column].map(relations)
+    ocel.e2e[ocel.event_id_column] = ocel.e2e[ocel.event_id_column].map(lambda x: relations.get(x, x))
+    ocel.e2e[ocel.event_id_column + "_2"] = ocel.e2e[ocel.event_id_column + "_2"].map(lambda x: relations.get(x, x))
 
     ocel.events = ocel.events.drop_duplicates(subset=[ocel.event_id_column])
     ocel.relations = ocel.relations.drop_duplicates(subset=[ocel.event_id_column, ocel.object_id_column])
-- 
2.43.0


From 99b37e5f1f1c0fda77da4fe58fba5699d8c02e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:44 +0000
Subject: [PATCH 42/77] fix: exploding an OCEL hands the event-to-event links
 on to the exploded events

---
 pm4py/objects/ocel/util/explode.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pm4py/objects/ocel/util/explode.py b/pm4py/objects/ocel/util/explode.py
index 842ec69..253ed4c 100644
--- a/pm4py/objects/ocel/util/explode.py
+++ b/pm4py/objects/ocel/util/explode.py
@@ -40,7 +40,13 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
         parameters = {}
 
     ocel = deepcopy(ocel)
+    original_ids = ocel.relations[ocel.event_id_column]
     ocel.relations[ocel.event_id_column] = ocel.relations[ocel.event_id_column] + "_" + ocel.relations[ocel.object_id_column]
+    # the links of an event are taken over by all the events that it is split to
+    exploded_ids = ocel.relations[ocel.event_id_column].groupby(original_ids).unique().to_dict()
+    for column in [ocel.event_id_column, ocel.event_id_column + "_2"]:
+        ocel.e2e[column] = ocel.e2e[column].map(exploded_ids)
+        ocel.e2e = ocel.e2e.explode(column).dropna(subset=[column]).reset_index(drop=True)
     ocel.events = ocel.relations.copy()
     del ocel.events[ocel.object_id_column]
     del ocel.events[ocel.object_type_column]
-- 
2.43.0


From f29558bfd2e07d7701b670a4eb3279d303ef1307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:19 +0000
Subject: [PATCH 43/77] fix: grouping consecutive events compares case and
 activity separately, not their concatenation

---
 .../consecutive_act_case_grouping_filter.py                   | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/consecutive_act_case_grouping/consecutive_act_case_grouping_filter.py b/pm4py/algo/filtering/pandas/consecutive_act_case_grouping/consecutive_act_case_grouping_filter.py
index 4818641..0aa64e0 100644
--- a/pm4py/algo/filtering/pandas/consecutive_act_case_grouping/consecutive_act_case_grouping_filter.py
+++ b/pm4py/algo/filtering/pandas/consecutive_act_case_grouping/consecutive_act_case_grouping_filter.py
@@ -57,8 +57,7 @@ def apply(log_obj: Union[EventLog, EventStream, pd.DataFrame], parameters: Optio
     filter_type = exec_utils.get_param_value(Parameters.FILTER_TYPE, parameters, "first")
 
     dataframe = log_converter.apply(log_obj, variant=log_converter.Variants.TO_DATA_FRAME, parameters=parameters).copy()
-    dataframe["@@extra1"] = dataframe[case_id_key] + dataframe[activity_key]
-    utility_df = (dataframe["@@extra1"] != dataframe["@@extra1"].shift())
+    utility_df = (dataframe[case_id_key] != dataframe[case_id_key].shift()) | (dataframe[activity_key] != dataframe[activity_key].shift())
     utility_df = utility_df.fillna(False).cumsum()
     gdf = dataframe.groupby(utility_df, sort=False)
 
@@ -68,6 +67,5 @@ def apply(log_obj: Union[EventLog, EventStream, pd.DataFrame], parameters: Optio
         dataframe = gdf.last()
 
     dataframe = dataframe.reset_index(drop=True)
-    del dataframe["@@extra1"]
 
     return dataframe
-- 
2.43.0


From e6b230822ff30363693f24cce06669941f84af32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:11 +0000
Subject: [PATCH 44/77] fix: get_variants gathers the events of a case also
 when they are not contiguous in the dataframe

---
 pm4py/objects/log/util/pandas_numpy_variants.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/log/util/pandas_numpy_variants.py b/pm4py/objects/log/util/pandas_numpy_variants.py
index b0dc973..82db124 100644
--- a/pm4py/objects/log/util/pandas_numpy_variants.py
+++ b/pm4py/objects/log/util/pandas_numpy_variants.py
@@ -74,7 +74,7 @@ def apply(dataframe: pd.DataFrame, parameters=None) -> Tuple[Dict[Collection[str
     if not (hasattr(dataframe, "attrs") and dataframe.attrs):
         # dataframe has not been initialized through format_dataframe
         dataframe = pandas_utils.insert_index(dataframe, index_key)
-        dataframe.sort_values([case_id_key, timestamp_key, index_key])
+        dataframe = dataframe.sort_values([case_id_key, timestamp_key, index_key])
 
     case_variant = dict()
 
@@ -84,6 +84,8 @@ def apply(dataframe: pd.DataFrame, parameters=None) -> Tuple[Dict[Collection[str
         variants_counter = Counter(case_variant.values())
     else:
         variants_counter = Counter()
+        # the events of a case need not be contiguous in the dataframe
+        dataframe = dataframe[[case_id_key, activity_key]].sort_values(case_id_key, kind="stable")
         cases = dataframe[case_id_key].to_numpy()
         activities = dataframe[activity_key].to_numpy()
 
-- 
2.43.0


From cc662a1831cc7285df7764ca5743dc377fc6fb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:11 +0000
Subject: [PATCH 45/77] fix: the between and activity split filters gather the
 events of a case when they are not contiguous in the dataframe

---
 .../pandas/activity_split/activity_split_filter.py   | 12 ++++++++----
 .../algo/filtering/pandas/between/between_filter.py  |  6 +++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/activity_split/activity_split_filter.py b/pm4py/algo/filtering/pandas/activity_split/activity_split_filter.py
index 9cbd8df..361b0d5 100644
--- a/pm4py/algo/filtering/pandas/activity_split/activity_split_filter.py
+++ b/pm4py/algo/filtering/pandas/activity_split/activity_split_filter.py
@@ -97,8 +97,12 @@ def apply(df: pd.DataFrame, activity: Union[str, List[str]],
     df = df.copy()
     cases = df[case_id_key].to_numpy()
     activities = df[activity_key].to_numpy()
+    # the events of a case need not be contiguous in the dataframe
+    order = np.argsort(cases, kind="stable")
+    cases = cases[order]
+    activities = activities[order]
     c_unq, c_ind, c_counts = np.unique(cases, return_index=True, return_counts=True)
-    res = []
+    res = [None] * len(df)
 
     i = 0
     while i < len(c_unq):
@@ -111,12 +115,12 @@ def apply(df: pd.DataFrame, activity: Union[str, List[str]],
                 rel_count += 1
                 next_case = str(c_unq[i]) + subcase_concat_str + str(rel_count)
                 if cut_mode == "this":
-                    res.append(next_case)
+                    res[order[c_ind[i] + j]] = next_case
                 else:
-                    res.append(this_case)
+                    res[order[c_ind[i] + j]] = this_case
                 this_case = next_case
             else:
-                res.append(this_case)
+                res[order[c_ind[i] + j]] = this_case
             j = j + 1
         i = i + 1
 
diff --git a/pm4py/algo/filtering/pandas/between/between_filter.py b/pm4py/algo/filtering/pandas/between/between_filter.py
index 9ebe41c..e3d3b01 100644
--- a/pm4py/algo/filtering/pandas/between/between_filter.py
+++ b/pm4py/algo/filtering/pandas/between/between_filter.py
@@ -67,6 +67,10 @@ def apply(df: pd.DataFrame, act1: Union[str, List[str]], act2: Union[str, List[s
     df = df.copy()
     cases = df[case_id_key].to_numpy()
     activities = df[activity_key].to_numpy()
+    # the events of a case need not be contiguous in the dataframe
+    order = np.argsort(cases, kind="stable")
+    cases = cases[order]
+    activities = activities[order]
     c_unq, c_ind, c_counts = np.unique(cases, return_index=True, return_counts=True)
     res = [np.nan for i in range(len(df))]
 
@@ -80,7 +84,7 @@ def apply(df: pd.DataFrame, act1: Union[str, List[str]], act2: Union[str, List[s
                 z = occ_A
                 this_case = str(c_unq[i]) + subcase_concat_str + str(rel_count)
                 while z <= j:
-                    res[c_ind[i] + z] = this_case
+                    res[order[c_ind[i] + z]] = this_case
                     z = z + 1
                 rel_count += 1
                 if act1 != act2:
-- 
2.43.0


From 53f35c154feb2ae006a3e944e641fa75d2ee7534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:11 +0000
Subject: [PATCH 46/77] fix: the iterable over a dataframe gathers the events
 of a case when they are not contiguous

---
 pm4py/streaming/conversion/from_pandas.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/streaming/conversion/from_pandas.py b/pm4py/streaming/conversion/from_pandas.py
index fb1a6b3..fcd0e88 100644
--- a/pm4py/streaming/conversion/from_pandas.py
+++ b/pm4py/streaming/conversion/from_pandas.py
@@ -48,6 +48,8 @@ class PandasDataframeAsIterable(object):
             dataframe = pandas_utils.insert_index(dataframe, index_key)
             dataframe = dataframe.sort_values([case_id_key, timestamp_key, index_key])
 
+        # the events of a case need not be contiguous in the dataframe
+        dataframe = dataframe.sort_values(case_id_key, kind="stable")
         cases = dataframe[case_id_key].to_numpy()
 
         self.activities = dataframe[activity_key].to_numpy()
-- 
2.43.0


From fa8421e32e92a5c0ba6dfdfe440eee8daee68c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:11 +0000
Subject: [PATCH 47/77] fix: sorting a dataframe by its case identifier alone
 keeps the order of the events of a case

---
 pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py | 6 +++---
 pm4py/algo/discovery/dfg/adapters/pandas/freq_triples.py  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
index ccd43ec..f5d4db4 100644
--- a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
+++ b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
@@ -96,7 +96,7 @@ def get_dfg_graph(df, measure="frequency", activity_key="concept:name", case_id_
         if sort_timestamp_along_case_id:
             df = df.sort_values([case_id_glue, start_timestamp_key, timestamp_key])
         else:
-            df = df.sort_values(case_id_glue)
+            df = df.sort_values(case_id_glue, kind="stable")
 
     # shift the dataframe by 1, in order to couple successive rows
     df_shifted = df.shift(-window)
@@ -226,7 +226,7 @@ def get_partial_order_dataframe(df, start_timestamp_key=None, timestamp_key="tim
         if sort_timestamp_along_case_id:
             df = df.sort_values([case_id_glue, start_timestamp_key, timestamp_key])
         else:
-            df = df.sort_values(case_id_glue)
+            df = df.sort_values(case_id_glue, kind="stable")
         df = df.reset_index(drop=True)
 
     if event_index not in df.columns:
@@ -300,7 +300,7 @@ def get_concurrent_events_dataframe(df, start_timestamp_key=None, timestamp_key=
         if sort_timestamp_along_case_id:
             df = df.sort_values([case_id_glue, start_timestamp_key, timestamp_key])
         else:
-            df = df.sort_values(case_id_glue)
+            df = df.sort_values(case_id_glue, kind="stable")
 
     # to increase the speed of the approaches reduce dataframe to case, activity (and possibly complete timestamp)
     # columns
diff --git a/pm4py/algo/discovery/dfg/adapters/pandas/freq_triples.py b/pm4py/algo/discovery/dfg/adapters/pandas/freq_triples.py
index 43d9409..04cbf29 100644
--- a/pm4py/algo/discovery/dfg/adapters/pandas/freq_triples.py
+++ b/pm4py/algo/discovery/dfg/adapters/pandas/freq_triples.py
@@ -47,7 +47,7 @@ def get_freq_triples(df, activity_key="concept:name", case_id_glue="case:concept
         if sort_timestamp_along_case_id:
             df = df.sort_values([case_id_glue, timestamp_key])
         else:
-            df = df.sort_values(case_id_glue)
+            df = df.sort_values(case_id_glue, kind="stable")
     df_reduced = df[[case_id_glue, activity_key]]
     # shift the dataframe by 1
     df_reduced_1 = df_reduced.shift(-1)
-- 
2.43.0


From 605581f415efda99b7a90f6442e738d86bcfef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:11 +0000
Subject: [PATCH 48/77] fix: the dataframe sorted for the interleavings is used

---
 .../ocel/interleavings/utils/merge_dataframe_rel_cases.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/ocel/interleavings/utils/merge_dataframe_rel_cases.py b/pm4py/algo/discovery/ocel/interleavings/utils/merge_dataframe_rel_cases.py
index c08e20a..fd51596 100644
--- a/pm4py/algo/discovery/ocel/interleavings/utils/merge_dataframe_rel_cases.py
+++ b/pm4py/algo/discovery/ocel/interleavings/utils/merge_dataframe_rel_cases.py
@@ -45,7 +45,7 @@ def directly_follows_dataframe(dataframe: pd.DataFrame, parameters: Optional[Dic
     if not (hasattr(dataframe, "attrs") and dataframe.attrs):
         # dataframe has not been initialized through format_dataframe
         dataframe = pandas_utils.insert_index(dataframe, index_key)
-        dataframe.sort_values([case_id_key, timestamp_key, index_key])
+        dataframe = dataframe.sort_values([case_id_key, timestamp_key, index_key])
 
     dataframe = pandas_utils.insert_index(dataframe, index_key)
 
-- 
2.43.0


From f5b4467cc3e59c25e41fb9abe884e9cdf0b84874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:23 +0000
Subject: [PATCH 49/77] fix: the precision of a dataframe weighs the empty
 prefix by the number of cases, not of events

---
 .../evaluation/precision/variants/align_etconformance.py     | 5 +++--
 .../evaluation/precision/variants/etconformance_token.py     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/evaluation/precision/variants/align_etconformance.py b/pm4py/algo/evaluation/precision/variants/align_etconformance.py
index 3ded70e..dad0742 100644
--- a/pm4py/algo/evaluation/precision/variants/align_etconformance.py
+++ b/pm4py/algo/evaluation/precision/variants/align_etconformance.py
@@ -125,8 +125,9 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], net: PetriNet, markin
     start_activities = set(get_start_activities(log, parameters=parameters))
     trans_en_ini_marking = set([x.label for x in get_visible_transitions_eventually_enabled_by_marking(net, marking)])
     diff = trans_en_ini_marking.difference(start_activities)
-    sum_at += len(log) * len(trans_en_ini_marking)
-    sum_ee += len(log) * len(diff)
+    no_cases = log[case_id_key].nunique() if type(log) is pd.DataFrame else len(log)
+    sum_at += no_cases * len(trans_en_ini_marking)
+    sum_ee += no_cases * len(diff)
     # end fix
 
     if sum_at > 0:
diff --git a/pm4py/algo/evaluation/precision/variants/etconformance_token.py b/pm4py/algo/evaluation/precision/variants/etconformance_token.py
index bee67dc..f4b82e1 100644
--- a/pm4py/algo/evaluation/precision/variants/etconformance_token.py
+++ b/pm4py/algo/evaluation/precision/variants/etconformance_token.py
@@ -117,8 +117,9 @@ def apply(log: EventLog, net: PetriNet, marking: Marking, final_marking: Marking
     start_activities = set(get_start_activities(log, parameters=parameters))
     trans_en_ini_marking = set([x.label for x in get_visible_transitions_eventually_enabled_by_marking(net, marking)])
     diff = trans_en_ini_marking.difference(start_activities)
-    sum_at += len(log) * len(trans_en_ini_marking)
-    sum_ee += len(log) * len(diff)
+    no_cases = log[case_id_key].nunique() if type(log) is pd.DataFrame else len(log)
+    sum_at += no_cases * len(trans_en_ini_marking)
+    sum_ee += no_cases * len(diff)
     # end fix
 
     for i in range(len(aligned_traces)):
-- 
2.43.0


From d2416c06b9e5d1c8d57f9d6efd1a7ce60d6ce609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:23 +0000
Subject: [PATCH 50/77] fix: the working-together metric of a dataframe is
 relative to the number of cases, not of events

---
 .../sna/variants/pandas/working_together.py                  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/organizational_mining/sna/variants/pandas/working_together.py b/pm4py/algo/organizational_mining/sna/variants/pandas/working_together.py
index cdcccc7..c809d69 100644
--- a/pm4py/algo/organizational_mining/sna/variants/pandas/working_together.py
+++ b/pm4py/algo/organizational_mining/sna/variants/pandas/working_together.py
@@ -70,6 +70,7 @@ def apply(log: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], A
     flat_list = sorted(list(set([item for sublist in resources for item in sublist])))
 
     connections = Counter()
+    no_cases = log[case_id_key].nunique()
 
     for idx, rv in enumerate(resources):
         rvj = variants_resources[idx]
@@ -79,7 +80,7 @@ def apply(log: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], A
             res_i = flat_list.index(ord_res_list[i])
             for j in range(i + 1, len(ord_res_list)):
                 res_j = flat_list.index(ord_res_list[j])
-                connections[(flat_list[res_i], flat_list[res_j])] += float(variants_occ[rvj]) / float(len(log))
-                connections[(flat_list[res_j], flat_list[res_i])] += float(variants_occ[rvj]) / float(len(log))
+                connections[(flat_list[res_i], flat_list[res_j])] += float(variants_occ[rvj]) / float(no_cases)
+                connections[(flat_list[res_j], flat_list[res_i])] += float(variants_occ[rvj]) / float(no_cases)
 
     return SNA(dict(connections), False)
-- 
2.43.0


From 9f2273662810c69e9561bea79532ece9d89ab326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:23 +0000
Subject: [PATCH 51/77] fix: the activity frequencies of the log skeleton of a
 dataframe are relative to the number of cases, not of events

---
 pm4py/algo/discovery/log_skeleton/variants/classic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/discovery/log_skeleton/variants/classic.py b/pm4py/algo/discovery/log_skeleton/variants/classic.py
index dcaa298..415e6a3 100644
--- a/pm4py/algo/discovery/log_skeleton/variants/classic.py
+++ b/pm4py/algo/discovery/log_skeleton/variants/classic.py
@@ -277,14 +277,16 @@ def apply(log: Union[EventLog, pd.DataFrame], parameters: Optional[Dict[Union[st
         all_activs = log[activity_key].value_counts().to_dict()
         logs_traces = Counter([tuple(x) for x in log.groupby(case_id_key)[activity_key].agg(list).to_dict().values()])
 
+    no_cases = sum(logs_traces.values())
+
     ret = {}
     ret[Outputs.EQUIVALENCE.value] = equivalence(logs_traces, all_activs, noise_threshold=noise_threshold)
     ret[Outputs.ALWAYS_AFTER.value] = always_after(logs_traces, all_activs, noise_threshold=noise_threshold)
     ret[Outputs.ALWAYS_BEFORE.value] = always_before(logs_traces, all_activs, noise_threshold=noise_threshold)
-    ret[Outputs.NEVER_TOGETHER.value] = never_together(logs_traces, all_activs, len(log),
+    ret[Outputs.NEVER_TOGETHER.value] = never_together(logs_traces, all_activs, no_cases,
                                                        noise_threshold=noise_threshold)
     ret[Outputs.DIRECTLY_FOLLOWS.value] = directly_follows(logs_traces, all_activs, noise_threshold=noise_threshold)
-    ret[Outputs.ACTIV_FREQ.value] = activ_freq(logs_traces, all_activs, len(log), noise_threshold=noise_threshold)
+    ret[Outputs.ACTIV_FREQ.value] = activ_freq(logs_traces, all_activs, no_cases, noise_threshold=noise_threshold)
 
     return ret
 
-- 
2.43.0


From 6be36200452caacf65ecf416716bd99a06984560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:07 +0000
Subject: [PATCH 52/77] fix: consecutive-activity grouping gathers the events
 of non-contiguous cases

---
 .../consecutive_act_case_grouping_filter.py                   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pm4py/algo/filtering/pandas/consecutive_act_case_grouping/consecutive_act_case_grouping_filter.py b/pm4py/algo/filtering/pandas/consecutive_act_case_grouping/consecutive_act_case_grouping_filter.py
index 0aa64e0..caf022e 100644
--- a/pm4py/algo/filtering/pandas/consecutive_act_case_grouping/consecutive_act_case_grouping_filter.py
+++ b/pm4py/algo/filtering/pandas/consecutive_act_case_grouping/consecutive_act_case_grouping_filter.py
@@ -15,6 +15,7 @@
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
 from pm4py.objects.log.obj import EventLog, EventStream
+import numpy as np
 import pandas as pd
 from typing import Optional, Dict, Any, Union
 from pm4py.util import constants, xes_constants, exec_utils
@@ -57,6 +58,9 @@ def apply(log_obj: Union[EventLog, EventStream, pd.DataFrame], parameters: Optio
     filter_type = exec_utils.get_param_value(Parameters.FILTER_TYPE, parameters, "first")
 
     dataframe = log_converter.apply(log_obj, variant=log_converter.Variants.TO_DATA_FRAME, parameters=parameters).copy()
+    # the events of a case need not be contiguous in the dataframe
+    order = np.argsort(dataframe.groupby(case_id_key, sort=False).ngroup().to_numpy(), kind="stable")
+    dataframe = dataframe.iloc[order]
     utility_df = (dataframe[case_id_key] != dataframe[case_id_key].shift()) | (dataframe[activity_key] != dataframe[activity_key].shift())
     utility_df = utility_df.fillna(False).cumsum()
     gdf = dataframe.groupby(utility_df, sort=False)
-- 
2.43.0


From 39f864107cb3d387f7259c5d2ed1806dbb697aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:39 +0000
Subject: [PATCH 53/77] fix: write_ocel2 silently wrote nothing for a .json
 file (and for any unknown extension)

---
 pm4py/write.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/write.py b/pm4py/write.py
index 918d2ed..9609a08 100644
--- a/pm4py/write.py
+++ b/pm4py/write.py
@@ -311,8 +311,9 @@ def write_ocel2(ocel: OCEL, file_path: str, encoding: str = constants.DEFAULT_EN
         return write_ocel2_sqlite(ocel, file_path, encoding=encoding)
     elif file_path.lower().endswith("xml") or file_path.lower().endswith("xmlocel"):
         return write_ocel2_xml(ocel, file_path, encoding=encoding)
-    elif file_path.lower().endswith("jsonocel"):
+    elif file_path.lower().endswith("json") or file_path.lower().endswith("jsonocel"):
         return write_ocel2_json(ocel, file_path, encoding=encoding)
+    raise Exception("unsupported file format")
 
 
 def write_ocel2_json(ocel: OCEL, file_path: str, encoding: str = constants.DEFAULT_ENCODING):
-- 
2.43.0


From a89c0d98c0eeee6121ced174a43d2ce5f7ff47a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:39 +0000
Subject: [PATCH 54/77] fix: read_ocel2 returned None for a file with an
 unknown extension

---
 pm4py/read.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pm4py/read.py b/pm4py/read.py
index 41fc6e9..fe0b6ef 100644
--- a/pm4py/read.py
+++ b/pm4py/read.py
@@ -329,6 +329,7 @@ def read_ocel2(file_path: str, variant_str: Optional[str] = None, encoding: str
         return read_ocel2_xml(file_path, variant_str=variant_str, encoding=encoding)
     elif file_path.lower().endswith("json") or file_path.lower().endswith("jsonocel"):
         return read_ocel2_json(file_path, variant_str=variant_str, encoding=encoding)
+    raise Exception("unsupported file format")
 
 
 def read_ocel2_json(file_path: str, variant_str: Optional[str] = None, encoding: str = constants.DEFAULT_ENCODING) -> OCEL:
-- 
2.43.0


From 8452335f615fc19d36b3dd145bb93a284fc4f0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:39 +0000
Subject: [PATCH 55/77] fix: filter_event_attribute_values returned None for an
 unknown level

---
 pm4py/filtering.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pm4py/filtering.py b/pm4py/filtering.py
index 7b49ce3..171cd8a 100644
--- a/pm4py/filtering.py
+++ b/pm4py/filtering.py
@@ -179,6 +179,7 @@ def filter_event_attribute_values(log: Union[EventLog, pd.DataFrame], attribute_
         elif level == "case":
             parameters[attributes_filter.Parameters.POSITIVE] = retain
             return attributes_filter.apply(log, values, parameters=parameters)
+    raise Exception("unsupported level for filter_event_attribute_values: " + str(level))
 
 
 def filter_trace_attribute_values(log: Union[EventLog, pd.DataFrame], attribute_key: str, values:  Union[Set[str], List[str]],
-- 
2.43.0


From 716db0c5e61abf6bd6b07f19c6633f88e07c8b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:39 +0000
Subject: [PATCH 56/77] fix: discover_objects_graph returned None for an
 unknown type of graph

---
 pm4py/ocel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pm4py/ocel.py b/pm4py/ocel.py
index 4a94b0f..3f2be80 100644
--- a/pm4py/ocel.py
+++ b/pm4py/ocel.py
@@ -294,6 +294,7 @@ def discover_objects_graph(ocel: OCEL, graph_type: str = "object_interaction") -
     elif graph_type == "object_codeath":
         from pm4py.algo.transformation.ocel.graphs import object_codeath_graph
         return object_codeath_graph.apply(ocel)
+    raise Exception("unsupported type of graph: " + str(graph_type))
 
 
 def ocel_o2o_enrichment(ocel: OCEL, included_graphs: Optional[Collection[str]] = None) -> OCEL:
-- 
2.43.0


From dfcdc081fa09187cae78a128a3db43d30f43047b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:39 +0000
Subject: [PATCH 57/77] fix: simplicity_petri_net returned None for an unknown
 variant

---
 pm4py/analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pm4py/analysis.py b/pm4py/analysis.py
index b0e3f15..682b58f 100644
--- a/pm4py/analysis.py
+++ b/pm4py/analysis.py
@@ -393,6 +393,7 @@ def simplicity_petri_net(net: PetriNet, im: Marking, fm: Marking, variant: Optio
     elif variant == "extended_cyclomatic":
         from pm4py.algo.evaluation.simplicity.variants import extended_cyclomatic
         return extended_cyclomatic.apply(net, im)
+    raise Exception("unsupported variant of simplicity: " + str(variant))
 
 
 def generate_marking(net: PetriNet, place_or_dct_places: Union[str, PetriNet.Place, Dict[str, int], Dict[PetriNet.Place, int]]) -> Marking:
-- 
2.43.0


From 74c1847ceac77abd8abf8449aa3c6bbb45bfda75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:39 +0000
Subject: [PATCH 58/77] fix: generate_marking returned None for the empty
 marking and for unsupported specifications

---
 pm4py/analysis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pm4py/analysis.py b/pm4py/analysis.py
index 682b58f..a67b7de 100644
--- a/pm4py/analysis.py
+++ b/pm4py/analysis.py
@@ -427,6 +427,10 @@ def generate_marking(net: PetriNet, place_or_dct_places: Union[str, PetriNet.Pla
             elif isinstance(dct_keys[0], str):
                 # we specified a dictionary associating to names of places a number of tokens
                 return Marking({dct_places[x]: y for x, y in place_or_dct_places.items()})
+        else:
+            # no place is marked
+            return Marking()
+    raise Exception("unsupported specification of a marking")
 
 
 def reduce_petri_net_invisibles(net: PetriNet) -> PetriNet:
-- 
2.43.0


From ec3b2aa10861bfc3f210c2114968d4011cd6c16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:40 +0000
Subject: [PATCH 59/77] fix: serialize and deserialize returned None for
 unsupported objects

---
 pm4py/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/utils.py b/pm4py/utils.py
index 6b0f90f..4ede6ba 100644
--- a/pm4py/utils.py
+++ b/pm4py/utils.py
@@ -252,6 +252,7 @@ def serialize(*args) -> Tuple[str, bytes]:
         from pm4py.objects.dfg.exporter import exporter as dfg_exporter
         return (constants.AvailableSerializations.DFG.value,
                 dfg_exporter.serialize(args[0], parameters={"start_activities": args[1], "end_activities": args[2]}))
+    raise Exception("unsupported object for the serialization")
 
 
 def deserialize(ser_obj: Tuple[str, bytes]) -> Any:
@@ -290,6 +291,7 @@ def deserialize(ser_obj: Tuple[str, bytes]) -> Any:
     elif ser_obj[0] == constants.AvailableSerializations.DFG.value:
         from pm4py.objects.dfg.importer import importer as dfg_importer
         return dfg_importer.deserialize(ser_obj[1])
+    raise Exception("unsupported object for the deserialization")
 
 
 def get_properties(log, activity_key: str = "concept:name", timestamp_key: str = "time:timestamp", case_id_key: str = "case:concept:name", resource_key: str = "org:resource", group_key: Optional[str] = None, start_timestamp_key: Optional[str] = None, **kwargs):
-- 
2.43.0


From 786e9928a873d845d3e4e82c6ceeedd05e396f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:40 +0000
Subject: [PATCH 60/77] fix: check_is_fitting returned None for unsupported
 models

---
 pm4py/conformance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pm4py/conformance.py b/pm4py/conformance.py
index 3313e64..ab46f10 100644
--- a/pm4py/conformance.py
+++ b/pm4py/conformance.py
@@ -681,6 +681,7 @@ def check_is_fitting(*args, activity_key=xes_constants.DEFAULT_NAME_KEY) -> bool
         return __check_is_fit_process_tree(trace, model, activity_key=activity_key)
     elif isinstance(model, tuple) and isinstance(model[0], PetriNet):
         return __check_is_fit_petri_net(trace, model[0], model[1], model[2], activity_key=activity_key)
+    raise Exception("unsupported model for check_is_fitting")
 
 
 def conformance_temporal_profile(log: Union[EventLog, pd.DataFrame], temporal_profile: Dict[Tuple[str, str], Tuple[float, float]], zeta: float = 1.0, activity_key: str = "concept:name", timestamp_key: str = "time:timestamp", case_id_key: str = "case:concept:name", return_diagnostics_dataframe: bool = constants.DEFAULT_RETURN_DIAGNOSTICS_DATAFRAME) -> List[List[Tuple[float, float, float, float]]]:
-- 
2.43.0


From b663685943f79a93b25ff13521499968ea2990de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:51 +0000
Subject: [PATCH 61/77] fix: convert_petri_net_type failed obscurely for an
 unknown type of net

---
 pm4py/convert.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/convert.py b/pm4py/convert.py
index 7c510d7..a19ba59 100644
--- a/pm4py/convert.py
+++ b/pm4py/convert.py
@@ -453,6 +453,8 @@ def convert_petri_net_type(net: PetriNet, im: Marking, fm: Marking, type: str =
     elif type == "reset_inhibitor":
         from pm4py.objects.petri_net.obj import ResetInhibitorNet
         new_net = ResetInhibitorNet(net.name)
+    else:
+        raise Exception("unsupported type of Petri net: " + str(type))
     for place in net.places:
         new_net.places.add(place)
         in_arcs = set(place.in_arcs)
-- 
2.43.0


From 1eb2b97447b2c902c232e5dde18756cd62422eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:51 +0000
Subject: [PATCH 62/77] fix: the discovery of footprints returned an exception
 (or None) instead of raising it

---
 pm4py/algo/discovery/footprints/algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/footprints/algorithm.py b/pm4py/algo/discovery/footprints/algorithm.py
index f968ff3..11f0110 100644
--- a/pm4py/algo/discovery/footprints/algorithm.py
+++ b/pm4py/algo/discovery/footprints/algorithm.py
@@ -72,10 +72,11 @@ def apply(*args, variant=None, parameters: Optional[Dict[Any, Any]] = None) -> D
             variant = Variants.ENTIRE_DATAFRAME
 
         if variant is None:
-            return Exception("unsupported arguments")
+            raise Exception("unsupported arguments")
 
     if variant in [Variants.TRACE_BY_TRACE, Variants.ENTIRE_EVENT_LOG, Variants.DFG, Variants.PROCESS_TREE,
                    Variants.ENTIRE_DATAFRAME]:
         return exec_utils.get_variant(variant).apply(args[0], parameters=parameters)
     elif variant in [Variants.PETRI_REACH_GRAPH]:
         return exec_utils.get_variant(variant).apply(args[0], args[1], parameters=parameters)
+    raise Exception("unsupported variant of the footprints discovery")
-- 
2.43.0


From e369e2c8afa6d65aafc14e5c4ded9beef3edab58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:19 +0000
Subject: [PATCH 63/77] fix: the classic XML OCEL importer restores the global
 event and object values

---
 pm4py/objects/ocel/importer/xmlocel/variants/classic.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/ocel/importer/xmlocel/variants/classic.py b/pm4py/objects/ocel/importer/xmlocel/variants/classic.py
index 08fd9aa..90f0419 100644
--- a/pm4py/objects/ocel/importer/xmlocel/variants/classic.py
+++ b/pm4py/objects/ocel/importer/xmlocel/variants/classic.py
@@ -78,6 +78,7 @@ def apply(file_path: str, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
     object_changes = []
     o2o = []
     obj_type_dict = {}
+    globals = {}
 
     encoding = exec_utils.get_param_value(Parameters.ENCODING, parameters, None)
 
@@ -166,6 +167,12 @@ def apply(file_path: str, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
                         object_changes.append(this_dct)
                 objects.append(dct)
                 obj_type_dict[obj_id] = obj_type
+        elif child.tag.lower().endswith("global"):
+            scope = child.get("scope")
+            if scope == "event":
+                globals[constants.OCEL_GLOBAL_EVENT] = {item.get("key"): item.get("value") for item in child}
+            elif scope == "object":
+                globals[constants.OCEL_GLOBAL_OBJECT] = {item.get("key"): item.get("value") for item in child}
         elif child.tag.lower().endswith("o2o"):
             for rel in child:
                 source = rel.get("source")
@@ -191,8 +198,6 @@ def apply(file_path: str, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
     del events[internal_index]
     del relations[internal_index]
 
-    globals = {}
-
     ocel = OCEL(events=events, objects=objects, relations=relations, globals=globals, o2o=o2o, object_changes=object_changes, parameters=parameters)
     ocel = ocel_consistency.apply(ocel, parameters=parameters)
     ocel = filtering_utils.propagate_relations_filtering(ocel)
-- 
2.43.0


From d187121d8c54e84f87d750157f5227fa2e7e698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:33 +0000
Subject: [PATCH 64/77] fix: the status and termination of cases in streaming
 conformance checking raced with the events being processed

---
 .../footprints/variants/classic.py            | 49 +++++++------
 .../algo/conformance/tbr/variants/classic.py  | 71 ++++++++++---------
 pm4py/streaming/algo/interface.py             |  4 +-
 3 files changed, 65 insertions(+), 59 deletions(-)

diff --git a/pm4py/streaming/algo/conformance/footprints/variants/classic.py b/pm4py/streaming/algo/conformance/footprints/variants/classic.py
index 9342c53..3752d1a 100644
--- a/pm4py/streaming/algo/conformance/footprints/variants/classic.py
+++ b/pm4py/streaming/algo/conformance/footprints/variants/classic.py
@@ -174,14 +174,15 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         boolean
             Boolean value (True if there are no deviations)
         """
-        if case in self.case_dict.keys():
-            num_dev = int(self.dev_dict[case])
-            if num_dev == 0:
-                return True
+        with self._lock:
+            if case in self.case_dict.keys():
+                num_dev = int(self.dev_dict[case])
+                if num_dev == 0:
+                    return True
+                else:
+                    return False
             else:
-                return False
-        else:
-            self.message_case_not_in_dictionary(case)
+                self.message_case_not_in_dictionary(case)
 
     def terminate(self, case):
         """
@@ -197,28 +198,30 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         boolean
             Boolean value (True if there are no deviations)
         """
-        if case in self.case_dict.keys():
-            curr = self.case_dict[case]
-            if curr not in self.end_activities:
-                self.message_end_activity_not_possible(curr, case)
-                self.dev_dict[case] = int(self.dev_dict[case]) + 1
-            num_dev = int(self.dev_dict[case])
-            del self.case_dict[case]
-            del self.dev_dict[case]
-            if num_dev == 0:
-                return True
+        with self._lock:
+            if case in self.case_dict.keys():
+                curr = self.case_dict[case]
+                if curr not in self.end_activities:
+                    self.message_end_activity_not_possible(curr, case)
+                    self.dev_dict[case] = int(self.dev_dict[case]) + 1
+                num_dev = int(self.dev_dict[case])
+                del self.case_dict[case]
+                del self.dev_dict[case]
+                if num_dev == 0:
+                    return True
+                else:
+                    return False
             else:
-                return False
-        else:
-            self.message_case_not_in_dictionary(case)
+                self.message_case_not_in_dictionary(case)
 
     def terminate_all(self):
         """
         Terminate all cases
         """
-        cases = list(self.case_dict.keys())
-        for case in cases:
-            self.terminate(case)
+        with self._lock:
+            cases = list(self.case_dict.keys())
+            for case in cases:
+                self.terminate(case)
 
     def message_case_or_activity_not_in_event(self, event):
         """
diff --git a/pm4py/streaming/algo/conformance/tbr/variants/classic.py b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
index 1c0b491..d66cd01 100644
--- a/pm4py/streaming/algo/conformance/tbr/variants/classic.py
+++ b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
@@ -271,10 +271,11 @@ class TbrStreamingConformance(StreamingAlgorithm):
         case
             Case
         """
-        if case in self.case_dict:
-            return {"marking": self.decode_marking(self.case_dict[case]), "missing": int(self.missing[case])}
-        else:
-            self.message_case_not_in_dictionary(case)
+        with self._lock:
+            if case in self.case_dict:
+                return {"marking": self.decode_marking(self.case_dict[case]), "missing": int(self.missing[case])}
+            else:
+                self.message_case_not_in_dictionary(case)
 
     def terminate(self, case):
         """
@@ -290,41 +291,43 @@ class TbrStreamingConformance(StreamingAlgorithm):
         dictio
             Dictionary containing: the marking, the count of missing and remaining tokens
         """
-        case = self.encode_str(case)
-        if case in self.case_dict:
-            remaining = 0
-            if not self.decode_marking(self.case_dict[case]) == self.fm:
-                new_marking = self.reach_fm_with_invisibles(self.case_dict[case])
-                if new_marking is None:
-                    new_marking = self.decode_marking(self.case_dict[case])
-                if not new_marking == self.fm:
-                    self.message_final_marking_not_reached(case, new_marking)
-                    fm_copy = copy(self.fm)
-                    for m in fm_copy:
-                        if not m in new_marking:
-                            new_marking[m] = 0
-                        self.missing[case] = int(self.missing[case]) + (fm_copy[m] - new_marking[m])
-                    for m in new_marking:
-                        if not m in fm_copy:
-                            fm_copy[m] = 0
-                        remaining += new_marking[m] - fm_copy[m]
-            missing = int(self.missing[case])
-            is_fit = missing == 0 and remaining == 0
-            ret = {"marking": self.decode_marking(self.case_dict[case]), "missing": missing, "remaining": remaining, "is_fit": is_fit}
-            del self.case_dict[case]
-            del self.missing[case]
-            del self.remaining[case]
-            return ret
-        else:
-            self.message_case_not_in_dictionary(case)
+        with self._lock:
+            case = self.encode_str(case)
+            if case in self.case_dict:
+                remaining = 0
+                if not self.decode_marking(self.case_dict[case]) == self.fm:
+                    new_marking = self.reach_fm_with_invisibles(self.case_dict[case])
+                    if new_marking is None:
+                        new_marking = self.decode_marking(self.case_dict[case])
+                    if not new_marking == self.fm:
+                        self.message_final_marking_not_reached(case, new_marking)
+                        fm_copy = copy(self.fm)
+                        for m in fm_copy:
+                            if not m in new_marking:
+                                new_marking[m] = 0
+                            self.missing[case] = int(self.missing[case]) + (fm_copy[m] - new_marking[m])
+                        for m in new_marking:
+                            if not m in fm_copy:
+                                fm_copy[m] = 0
+                            remaining += new_marking[m] - fm_copy[m]
+                missing = int(self.missing[case])
+                is_fit = missing == 0 and remaining == 0
+                ret = {"marking": self.decode_marking(self.case_dict[case]), "missing": missing, "remaining": remaining, "is_fit": is_fit}
+                del self.case_dict[case]
+                del self.missing[case]
+                del self.remaining[case]
+                return ret
+            else:
+                self.message_case_not_in_dictionary(case)
 
     def terminate_all(self):
         """
         Terminate all open cases
         """
-        cases = list(self.case_dict.keys())
-        for case in cases:
-            self.terminate(case)
+        with self._lock:
+            cases = list(self.case_dict.keys())
+            for case in cases:
+                self.terminate(case)
 
     def reach_fm_with_invisibles(self, marking):
         """
diff --git a/pm4py/streaming/algo/interface.py b/pm4py/streaming/algo/interface.py
index 7707825..02f3e23 100644
--- a/pm4py/streaming/algo/interface.py
+++ b/pm4py/streaming/algo/interface.py
@@ -15,13 +15,13 @@
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
 import abc
-from threading import Lock
+from threading import RLock
 import traceback
 
 
 class StreamingAlgorithm(abc.ABC):
     def __init__(self, parameters=None):
-        self._lock = Lock()
+        self._lock = RLock()
 
     @abc.abstractmethod
     def _process(self, event):
-- 
2.43.0


From ca24ba130177feff53f0f93a0783711bdee093c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:58 +0000
Subject: [PATCH 65/77] fix: reading the values of a thread-safe dictionary
 deadlocked, and storing under an unhashable key left its lock held

---
 pm4py/streaming/util/dictio/versions/thread_safe.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pm4py/streaming/util/dictio/versions/thread_safe.py b/pm4py/streaming/util/dictio/versions/thread_safe.py
index 7492c77..de791e0 100644
--- a/pm4py/streaming/util/dictio/versions/thread_safe.py
+++ b/pm4py/streaming/util/dictio/versions/thread_safe.py
@@ -27,9 +27,8 @@ class ThreadSafeDict(dict):
     def __setitem__(self, key, value):
         # TODO: what should happen to the order if
         #       the key is already in the dict
-        self.lock.acquire()
-        super(ThreadSafeDict, self).__setitem__(key, value)
-        self.lock.release()
+        with self.lock:
+            super(ThreadSafeDict, self).__setitem__(key, value)
 
     def __iter__(self):
         self.lock.acquire()
@@ -45,13 +44,13 @@ class ThreadSafeDict(dict):
 
     def values(self):
         self.lock.acquire()
-        ret = [self[key] for key in self]
+        ret = list(super(ThreadSafeDict, self).values())
         self.lock.release()
         return ret
 
     def itervalues(self):
         self.lock.acquire()
-        ret = (self[key] for key in self)
+        ret = iter(list(super(ThreadSafeDict, self).values()))
         self.lock.release()
         return ret
 
-- 
2.43.0


From 630d60b48096a778e48a72e64c70855e4a3df324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:58 +0000
Subject: [PATCH 66/77] fix: deregistering an unknown observer left the lock of
 a live stream held

---
 pm4py/streaming/stream/live_event_stream.py | 5 ++---
 pm4py/streaming/stream/live_trace_stream.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/pm4py/streaming/stream/live_event_stream.py b/pm4py/streaming/stream/live_event_stream.py
index 53aec69..a726a71 100644
--- a/pm4py/streaming/stream/live_event_stream.py
+++ b/pm4py/streaming/stream/live_event_stream.py
@@ -87,9 +87,8 @@ class LiveEventStream:
         self._cond.release()
 
     async def deregister(self, algo):
-        self._cond.acquire()
-        self._observers.remove(algo)
-        self._cond.release()
+        with self._cond:
+            self._observers.remove(algo)
 
     def _get_state(self):
         return self._state
diff --git a/pm4py/streaming/stream/live_trace_stream.py b/pm4py/streaming/stream/live_trace_stream.py
index c9e56ec..a3a7d8e 100644
--- a/pm4py/streaming/stream/live_trace_stream.py
+++ b/pm4py/streaming/stream/live_trace_stream.py
@@ -87,9 +87,8 @@ class LiveTraceStream:
         self._cond.release()
 
     async def deregister(self, algo):
-        self._cond.acquire()
-        self._observers.remove(algo)
-        self._cond.release()
+        with self._cond:
+            self._observers.remove(algo)
 
     def _get_state(self):
         return self._state
-- 
2.43.0


From 59449eb2b194e8f1359c2574cbe399c83c28db29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:58 +0000
Subject: [PATCH 67/77] fix: a failing Redis operation left the lock of the
 dictionary held

---
 pm4py/streaming/util/dictio/versions/redis.py | 37 ++++++++-----------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/pm4py/streaming/util/dictio/versions/redis.py b/pm4py/streaming/util/dictio/versions/redis.py
index 1f1d708..4a3c250 100644
--- a/pm4py/streaming/util/dictio/versions/redis.py
+++ b/pm4py/streaming/util/dictio/versions/redis.py
@@ -36,44 +36,37 @@ class ThreadSafeRedisDict(dict):
     def __setitem__(self, key, value):
         # TODO: what should happen to the order if
         #       the key is already in the dict
-        self.lock.acquire()
-        self.redis_connection[key] = value
-        super(ThreadSafeRedisDict, self).__setitem__(key, value)
-        self.lock.release()
+        with self.lock:
+            self.redis_connection[key] = value
+            super(ThreadSafeRedisDict, self).__setitem__(key, value)
 
     def __iter__(self):
-        self.lock.acquire()
-        ret = iter(list(self.redis_connection.keys()))
-        self.lock.release()
+        with self.lock:
+            ret = iter(list(self.redis_connection.keys()))
         return ret
 
     def keys(self):
-        self.lock.acquire()
-        ret = list(self.redis_connection.keys())
-        self.lock.release()
+        with self.lock:
+            ret = list(self.redis_connection.keys())
         return ret
 
     def values(self):
-        self.lock.acquire()
-        ret = self.redis_connection.values()
-        self.lock.release()
+        with self.lock:
+            ret = self.redis_connection.values()
         return ret
 
     def itervalues(self):
-        self.lock.acquire()
-        ret = self.redis_connection.itervalues()
-        self.lock.release()
+        with self.lock:
+            ret = self.redis_connection.itervalues()
         return ret
 
     def flushdb(self):
-        self.lock.acquire()
-        self.redis_connection.flushdb()
-        self.lock.release()
+        with self.lock:
+            self.redis_connection.flushdb()
 
     def flushall(self):
-        self.lock.acquire()
-        self.redis_connection.flushall()
-        self.lock.release()
+        with self.lock:
+            self.redis_connection.flushall()
 
 
 # typing not applied, since redis is not installed by default
-- 
2.43.0


From 0642f3fa3c5896a36e1b8923f23b3b925e2f6298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:29 +0000
Subject: [PATCH 68/77] fix: a failing screenshot left the lock of the Windows
 event logger held

---
 .../connectors/windows/click_key_logger.py    | 51 +++++++++----------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/pm4py/streaming/connectors/windows/click_key_logger.py b/pm4py/streaming/connectors/windows/click_key_logger.py
index 061327c..3537b67 100644
--- a/pm4py/streaming/connectors/windows/click_key_logger.py
+++ b/pm4py/streaming/connectors/windows/click_key_logger.py
@@ -110,33 +110,30 @@ class WindowsEventLogger(Thread):
             return None
 
     def record(self, windows_title, process_name=None, x=None, y=None, button=None, key=None):
-        self.lock.acquire()
-
-        process_name = str(process_name) if process_name is not None else ""
-        x = str(x) if x is not None else ""
-        y = str(y) if y is not None else ""
-        button = str(button) if button is not None else ""
-        key = str(key) if key is not None else ""
-
-        timestamp = time.time()
-        dt_object = datetime.utcfromtimestamp(timestamp)
-
-        image_path = ""
-        img = None
-
-        if self.screenshots_folder is not None:
-            image_path = os.path.join(self.screenshots_folder, "screenshot_%s.png" % (
-                    dt_object.strftime('%Y%m%d_%H%M%S') + '_' + dt_object.strftime('%f')[:3]))
-
-        event = Event(
-            {"timestamp": "NONE", "windows_title": windows_title, "process_name": process_name, "x": x, "y": y,
-             "button": button, "key": key, "screenshot": image_path})
-        self.event_stream.append(event)
-
-        if image_path:
-            img = ImageGrab.grab(all_screens=True)
-
-        self.lock.release()
+        with self.lock:
+            process_name = str(process_name) if process_name is not None else ""
+            x = str(x) if x is not None else ""
+            y = str(y) if y is not None else ""
+            button = str(button) if button is not None else ""
+            key = str(key) if key is not None else ""
+
+            timestamp = time.time()
+            dt_object = datetime.utcfromtimestamp(timestamp)
+
+            image_path = ""
+            img = None
+
+            if self.screenshots_folder is not None:
+                image_path = os.path.join(self.screenshots_folder, "screenshot_%s.png" % (
+                        dt_object.strftime('%Y%m%d_%H%M%S') + '_' + dt_object.strftime('%f')[:3]))
+
+            event = Event(
+                {"timestamp": "NONE", "windows_title": windows_title, "process_name": process_name, "x": x, "y": y,
+                 "button": button, "key": key, "screenshot": image_path})
+            self.event_stream.append(event)
+
+            if image_path:
+                img = ImageGrab.grab(all_screens=True)
 
         if image_path:
             img.save(image_path, "PNG")
-- 
2.43.0


From 5a5be7a9ea72ae8adf5239a6fe8f721fc54471fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:39 +0000
Subject: [PATCH 69/77] fix: reduce_tau_leafs skipped leaves as it removed from
 the list of children that it was going through

---
 pm4py/objects/process_tree/utils/generic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/process_tree/utils/generic.py b/pm4py/objects/process_tree/utils/generic.py
index 66b0193..7fcf1b4 100644
--- a/pm4py/objects/process_tree/utils/generic.py
+++ b/pm4py/objects/process_tree/utils/generic.py
@@ -142,11 +142,12 @@ def reduce_tau_leafs(tree):
                         if is_tau_leaf(c):
                             c.parent = None
                             tree.children.remove(c)
+                            break
             else:
                 # at least one non-tau child
                 if tree.operator in [pt_op.Operator.SEQUENCE, pt_op.Operator.PARALLEL]:
                     # remove all, they are redundant for these operators
-                    cc = tree.children
+                    cc = list(tree.children)
                     for c in cc:
                         if is_tau_leaf(c):
                             c.parent = None
-- 
2.43.0


From a6a2a4855e6ec0b4a023739adca3dc3b61c6dda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:02 +0000
Subject: [PATCH 70/77] fix: the guards of data Petri nets could call any
 builtin (open, __import__, getattr) of Python

---
 pm4py/objects/petri_net/data_petri_nets/semantics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pm4py/objects/petri_net/data_petri_nets/semantics.py b/pm4py/objects/petri_net/data_petri_nets/semantics.py
index f9f8db5..1224ae4 100644
--- a/pm4py/objects/petri_net/data_petri_nets/semantics.py
+++ b/pm4py/objects/petri_net/data_petri_nets/semantics.py
@@ -22,6 +22,9 @@ import re
 
 security_pattern = re.compile(r'[.]|\\x[0-9a-fA-F]+')
 
+# the only functions that a guard can call
+guard_functions = {x.__name__: x for x in (abs, bool, float, int, len, max, min, round, str, sum)}
+
 
 class DataPetriNetSemantics(Semantics):
     def is_enabled(self, t, pn, m, **kwargs):
@@ -138,6 +141,7 @@ def evaluate_guard(guard, read_variables, data):
         for k, v in data.items():
             dct[k] = v
         if check_guard_safety(guard):
+            dct["__builtins__"] = guard_functions
             ret = eval(guard, dct)
             return ret
         return False
-- 
2.43.0


From cdcb84c21e63435ffb98cba8d1c0bbdb8e4434d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:10 +0000
Subject: [PATCH 71/77] fix: the cells of an OCEL CSV file were evaluated as
 Python code

---
 pm4py/objects/ocel/util/extended_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/ocel/util/extended_table.py b/pm4py/objects/ocel/util/extended_table.py
index 6e3c817..b515cd5 100644
--- a/pm4py/objects/ocel/util/extended_table.py
+++ b/pm4py/objects/ocel/util/extended_table.py
@@ -14,6 +14,7 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+import ast
 from enum import Enum
 from typing import Optional, Dict, Any
 
@@ -38,7 +39,7 @@ class Parameters(Enum):
 def parse_list(value):
     if type(value) is str:
         if value[0] == "[":
-            return eval(value)
+            return ast.literal_eval(value)
     return []
 
 
-- 
2.43.0


From 3c832c7387d8e14e7b932b2bc2472c21f56cc668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:49 +0000
Subject: [PATCH 72/77] fix: the generation of trees with duplicate activities
 did not end when no leaf could be replaced

---
 .../simulation/tree_generator/variants/ptandloggenerator.py    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py b/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py
index 405615b..84ed039 100644
--- a/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py
+++ b/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py
@@ -212,11 +212,12 @@ class GeneratedTree(object):
                     if child != leaf:
                         siblings.append(child)
                 # TODO Skaling? Original: 30times, my idea : percentage of duplicates * len(leaves)
-                while i < self.parameters["duplicate"] * len(leaves):
+                while possible_replacements and i < self.parameters["duplicate"] * len(leaves):
                     replacement = random.choice(possible_replacements)
                     if replacement not in siblings:
                         replacement._label = leaf._label
                         break
+                    i += 1
 
     def add_node(self):
         leaves = self.tree._get_leaves()
-- 
2.43.0


From d49f89eae839e1a393cedffa45185ebb4633a49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:49 +0000
Subject: [PATCH 73/77] fix: the play-out of a Petri net did not end when a run
 was trapped in a cycle of silent transitions

---
 .../playout/petri_net/variants/basic_playout.py          | 9 ++++++++-
 .../playout/petri_net/variants/stochastic_playout.py     | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/simulation/playout/petri_net/variants/basic_playout.py b/pm4py/algo/simulation/playout/petri_net/variants/basic_playout.py
index dc4f6de..af504fe 100644
--- a/pm4py/algo/simulation/playout/petri_net/variants/basic_playout.py
+++ b/pm4py/algo/simulation/playout/petri_net/variants/basic_playout.py
@@ -29,6 +29,9 @@ from pm4py.util import exec_utils
 from pm4py.util import xes_constants
 from pm4py.util.dt_parsing.variants import strpfromiso
 
+# number of consecutive silent transitions after which a run is considered to be trapped (livelock)
+MAX_SILENT_STEPS = 1000
+
 
 class Parameters(Enum):
     ACTIVITY_KEY = constants.PARAMETER_CONSTANT_ACTIVITY_KEY
@@ -101,9 +104,10 @@ def apply_playout(net, initial_marking, no_traces=100, max_trace_length=100,
 
         visited_elements = []
         visible_transitions_visited = []
+        silent_steps = 0
 
         marking = copy(initial_marking)
-        while len(visible_transitions_visited) < max_trace_length:
+        while len(visible_transitions_visited) < max_trace_length and silent_steps < MAX_SILENT_STEPS:
             visited_elements.append(marking)
 
             if not semantics.enabled_transitions(net, marking):  # supports nets with possible deadlocks
@@ -119,6 +123,9 @@ def apply_playout(net, initial_marking, no_traces=100, max_trace_length=100,
             visited_elements.append(trans)
             if trans.label is not None:
                 visible_transitions_visited.append(trans)
+                silent_steps = 0
+            else:
+                silent_steps += 1
 
             marking = semantics.execute(trans, net, marking)
 
diff --git a/pm4py/algo/simulation/playout/petri_net/variants/stochastic_playout.py b/pm4py/algo/simulation/playout/petri_net/variants/stochastic_playout.py
index 54338de..ea5a123 100644
--- a/pm4py/algo/simulation/playout/petri_net/variants/stochastic_playout.py
+++ b/pm4py/algo/simulation/playout/petri_net/variants/stochastic_playout.py
@@ -29,6 +29,9 @@ from pm4py.util import exec_utils
 from pm4py.util import xes_constants
 from pm4py.util.dt_parsing.variants import strpfromiso
 
+# number of consecutive silent transitions after which a run is considered to be trapped (livelock)
+MAX_SILENT_STEPS = 1000
+
 
 class Parameters(Enum):
     ACTIVITY_KEY = constants.PARAMETER_CONSTANT_ACTIVITY_KEY
@@ -99,9 +102,10 @@ def apply_playout(net, initial_marking, no_traces=100, max_trace_length=100,
     for i in range(no_traces):
         visited_elements = []
         visible_transitions_visited = []
+        silent_steps = 0
         marking = copy(initial_marking)
 
-        while len(visible_transitions_visited) < max_trace_length:
+        while len(visible_transitions_visited) < max_trace_length and silent_steps < MAX_SILENT_STEPS:
             visited_elements.append(marking)
 
             if not semantics.enabled_transitions(net, marking):  # supports nets with possible deadlocks
@@ -120,6 +124,9 @@ def apply_playout(net, initial_marking, no_traces=100, max_trace_length=100,
             visited_elements.append(trans)
             if trans.label is not None:
                 visible_transitions_visited.append(trans)
+                silent_steps = 0
+            else:
+                silent_steps += 1
 
             marking = semantics.execute(trans, net, marking)
 
-- 
2.43.0


From 3f79ed0b65d8b43183c3ef0845f9135c121cc99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:22 +0000
Subject: [PATCH 74/77] fix: the recomposition of decomposed alignments did not
 end when the components form a cycle

---
 .../alignments/decomposed/variants/recompos_maximal.py          | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py b/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
index 5411aff..d7c2adc 100644
--- a/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
+++ b/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
@@ -350,6 +350,8 @@ def recompose_alignment(cons_nets, cons_nets_result):
     count = 0
     while len(to_visit) > 0:
         curr = to_visit.pop(0)
+        if curr in visited:
+            continue
         output_edges = [e for e in G0.edges if e[0] == curr]
         for edge in output_edges:
             to_visit.append(edge[1])
-- 
2.43.0


From 50f564d898e62e1f63edfa9cdfea7298180e3c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:22 +0000
Subject: [PATCH 75/77] fix: the conversion of stochastic arc weight nets did
 not end for nets with cycles

---
 pm4py/objects/petri_net/saw_net/convert.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/petri_net/saw_net/convert.py b/pm4py/objects/petri_net/saw_net/convert.py
index 8e0a0ea..d5cbabf 100644
--- a/pm4py/objects/petri_net/saw_net/convert.py
+++ b/pm4py/objects/petri_net/saw_net/convert.py
@@ -64,6 +64,7 @@ def convert_saw_net_to_stochastic_net_local_semantics(saw: StochasticArcWeightNe
     for p in markings[marking]:
         sn.places.add(markings[marking][p])
     open.append(marking)
+    closed.add(marking)
     while len(open) > 0:
         m = open.pop()
         for t in saw.transitions:
@@ -90,6 +91,7 @@ def convert_saw_net_to_stochastic_net_local_semantics(saw: StochasticArcWeightNe
                             plcs_out[p].in_arcs.add(a)
                             t_new.out_arcs.add(a)
                             sn.arcs.add(a)
-                    if m_out not in closed and m_out is not m:
+                    if m_out not in closed:
+                        closed.add(m_out)
                         open.append(m_out)
     return sn, {markings[marking][p]: marking[p] for p in marking}
-- 
2.43.0


From 37654ddbed81aaceb5f2e707b0a3f2b34638ebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:37 +0000
Subject: [PATCH 76/77] fix: files and connections stayed open after the XES
 and OCEL importers returned

---
 pm4py/objects/log/importer/xes/variants/iterparse.py        | 1 +
 pm4py/objects/log/importer/xes/variants/iterparse_20.py     | 1 +
 .../log/importer/xes/variants/iterparse_mem_compressed.py   | 1 +
 .../ocel/importer/sqlite/variants/pandas_importer.py        | 2 ++
 pm4py/objects/ocel/validation/jsonocel.py                   | 6 ++++--
 5 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/log/importer/xes/variants/iterparse.py b/pm4py/objects/log/importer/xes/variants/iterparse.py
index 28702eb..8dfbc3c 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse.py
@@ -338,6 +338,7 @@ def import_log(filename, parameters=None):
             f = open(filename, "rb")
         context = etree.iterparse(f, events=[_EVENT_START, _EVENT_END], encoding=encoding)
         num_traces = count_traces(context)
+        f.close()
     else:
         # avoid the iteration to calculate the number of traces is "tqdm" is not used
         num_traces = 0
diff --git a/pm4py/objects/log/importer/xes/variants/iterparse_20.py b/pm4py/objects/log/importer/xes/variants/iterparse_20.py
index 585d730..369fc6a 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse_20.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse_20.py
@@ -338,6 +338,7 @@ def import_log(filename, parameters=None):
             f = open(filename, "rb")
         context = etree.iterparse(f, events=[_EVENT_START, _EVENT_END], encoding=encoding)
         num_traces = count_traces(context)
+        f.close()
     else:
         # avoid the iteration to calculate the number of traces is "tqdm" is not used
         num_traces = 0
diff --git a/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py b/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
index dfb8627..99fd13e 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
@@ -336,6 +336,7 @@ def import_log(filename, parameters=None):
             f = open(filename, "rb")
         context = etree.iterparse(f, events=[_EVENT_START, _EVENT_END], encoding=encoding)
         num_traces = count_traces(context)
+        f.close()
     else:
         # avoid the iteration to calculate the number of traces is "tqdm" is not used
         num_traces = 0
diff --git a/pm4py/objects/ocel/importer/sqlite/variants/pandas_importer.py b/pm4py/objects/ocel/importer/sqlite/variants/pandas_importer.py
index ece206a..9d88ebc 100644
--- a/pm4py/objects/ocel/importer/sqlite/variants/pandas_importer.py
+++ b/pm4py/objects/ocel/importer/sqlite/variants/pandas_importer.py
@@ -51,6 +51,8 @@ def apply(file_path: str, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
     objects = pd.read_sql("SELECT * FROM OBJECTS", conn)
     relations = pd.read_sql("SELECT * FROM RELATIONS", conn)
 
+    conn.close()
+
     events = dataframe_utils.convert_timestamp_columns_in_df(events,
                                                                      timest_format=pm4_constants.DEFAULT_TIMESTAMP_PARSE_FORMAT,
                                                                      timest_columns=["ocel:timestamp"])
diff --git a/pm4py/objects/ocel/validation/jsonocel.py b/pm4py/objects/ocel/validation/jsonocel.py
index 77c17b1..1b73d39 100644
--- a/pm4py/objects/ocel/validation/jsonocel.py
+++ b/pm4py/objects/ocel/validation/jsonocel.py
@@ -28,8 +28,10 @@ def apply(input_path, validation_path, parameters=None):
     if parameters is None:
         parameters = {}
 
-    file_content = json.load(open(input_path, "rb"))
-    schema_content = json.load(open(validation_path, "rb"))
+    with open(input_path, "rb") as f:
+        file_content = json.load(f)
+    with open(validation_path, "rb") as f:
+        schema_content = json.load(f)
     try:
         validate(instance=file_content, schema=schema_content)
         return True
-- 
2.43.0


From 24405089220db0930ba329e30a53af8ff5a9be08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:37 +0000
Subject: [PATCH 77/77] fix: the CSV event stream, the command line and some
 visualizations read and wrote text in the encoding of the locale

---
 pm4py/cli.py                                    | 17 +++++++++++------
 .../importer/csv/variants/csv_event_stream.py   | 12 +++++++++---
 pm4py/visualization/bpmn/variants/dagrejs.py    |  2 +-
 pm4py/visualization/common/html.py              |  2 +-
 .../dotted_chart/variants/classic.py            |  2 +-
 .../performance_spectrum/variants/neato.py      |  2 +-
 pm4py/visualization/powl/visualizer.py          |  6 +++---
 pm4py/visualization/sna/variants/pyvis.py       |  2 +-
 8 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/pm4py/cli.py b/pm4py/cli.py
index 1d6b9b1..b77d7a6 100644
--- a/pm4py/cli.py
+++ b/pm4py/cli.py
@@ -69,27 +69,27 @@ methods = {
     "DiscoverDFG": {"inputs": [".xes"], "output_extension": ".dfg",
                     "method": lambda x: pm4py.write_dfg(*pm4py.discover_dfg(__read_log(x[0])), x[1])},
     "ConformanceDiagnosticsTBR": {"inputs": [".xes", ".pnml"], "output_extension": ".txt",
-                                  "method": lambda x: open(x[2], "w").write(str(
+                                  "method": lambda x: __write_text(x[2], str(
                                       pm4py.conformance_diagnostics_token_based_replay(__read_log(x[0]),
                                                                                        *pm4py.read_pnml(x[1]), return_diagnostics_dataframe=False)))},
     "ConformanceDiagnosticsAlignments": {"inputs": [".xes", ".pnml"], "output_extension": ".txt",
-                                         "method": lambda x: open(x[2], "w").write(str(
+                                         "method": lambda x: __write_text(x[2], str(
                                              pm4py.conformance_diagnostics_alignments(__read_log(x[0]),
                                                                                       *pm4py.read_pnml(x[1]), return_diagnostics_dataframe=False)))},
     "FitnessTBR": {"inputs": [".xes", ".pnml"], "output_extension": ".txt",
-                   "method": lambda x: open(x[2], "w").write(str(
+                   "method": lambda x: __write_text(x[2], str(
                        pm4py.fitness_token_based_replay(__read_log(x[0]),
                                                         *pm4py.read_pnml(x[1]))))},
     "FitnessAlignments": {"inputs": [".xes", ".pnml"], "output_extension": ".txt",
-                          "method": lambda x: open(x[2], "w").write(str(
+                          "method": lambda x: __write_text(x[2], str(
                               pm4py.fitness_alignments(__read_log(x[0]),
                                                        *pm4py.read_pnml(x[1]))))},
     "PrecisionTBR": {"inputs": [".xes", ".pnml"], "output_extension": ".txt",
-                     "method": lambda x: open(x[2], "w").write(str(
+                     "method": lambda x: __write_text(x[2], str(
                          pm4py.precision_token_based_replay(__read_log(x[0]),
                                                             *pm4py.read_pnml(x[1]))))},
     "PrecisionAlignments": {"inputs": [".xes", ".pnml"], "output_extension": ".txt",
-                            "method": lambda x: open(x[2], "w").write(str(
+                            "method": lambda x: __write_text(x[2], str(
                                 pm4py.precision_alignments(__read_log(x[0]),
                                                            *pm4py.read_pnml(x[1]))))},
     "SaveVisDFG": {"inputs": [".dfg"], "output_extension": ".png",
@@ -141,6 +141,11 @@ methods = {
 }
 
 
+def __write_text(path, text):
+    with open(path, "w", encoding=constants.DEFAULT_ENCODING) as f:
+        f.write(text)
+
+
 def __read_log(log_path):
     if "xes" in log_path.lower():
         return pm4py.read_xes(log_path)
diff --git a/pm4py/streaming/importer/csv/variants/csv_event_stream.py b/pm4py/streaming/importer/csv/variants/csv_event_stream.py
index d6de7ad..47e3c12 100644
--- a/pm4py/streaming/importer/csv/variants/csv_event_stream.py
+++ b/pm4py/streaming/importer/csv/variants/csv_event_stream.py
@@ -16,12 +16,13 @@
 '''
 import csv
 from enum import Enum
-from pm4py.util import exec_utils
+from pm4py.util import constants, exec_utils
 
 
 class Parameters(Enum):
     TRANSFORMATION_FUNCTION = "transformation_function"
     ACCEPTANCE_CONDITION = "acceptance_condition"
+    ENCODING = "encoding"
 
 
 class CSVEventStreamReader(object):
@@ -32,10 +33,14 @@ class CSVEventStreamReader(object):
                                                                   lambda x: x)
         self.acceptance_condition = exec_utils.get_param_value(Parameters.ACCEPTANCE_CONDITION, parameters,
                                                                lambda x: True)
+        self.encoding = exec_utils.get_param_value(Parameters.ENCODING, parameters, constants.DEFAULT_ENCODING)
+        self.F = None
         self.reset()
 
     def reset(self):
-        self.F = open(self.path, "r")
+        if self.F is not None:
+            self.F.close()
+        self.F = open(self.path, "r", encoding=self.encoding)
         self.reader = csv.DictReader(self.F)
         self.reading_log = True
 
@@ -77,7 +82,7 @@ class CSVEventStreamReader(object):
         eve
             Event
         """
-        while True:
+        while self.reading_log:
             try:
                 event = next(self.reader)
                 if event is not None:
@@ -90,6 +95,7 @@ class CSVEventStreamReader(object):
                     return None
             except StopIteration as exc:
                 self.reading_log = False
+                self.F.close()
                 return None
 
 def apply(path, parameters=None):
diff --git a/pm4py/visualization/bpmn/variants/dagrejs.py b/pm4py/visualization/bpmn/variants/dagrejs.py
index 2617a0f..03566a8 100644
--- a/pm4py/visualization/bpmn/variants/dagrejs.py
+++ b/pm4py/visualization/bpmn/variants/dagrejs.py
@@ -33,7 +33,7 @@ class Parameters(Enum):
 
 def get_html_file_contents():
     with importlib.resources.path("pm4py.visualization.bpmn.util", "dagrejs_base.html") as p:
-        with open(str(p), 'r') as html_file:
+        with open(str(p), 'r', encoding=constants.DEFAULT_ENCODING) as html_file:
             return html_file.read()
 
 
diff --git a/pm4py/visualization/common/html.py b/pm4py/visualization/common/html.py
index 467a91f..e830586 100644
--- a/pm4py/visualization/common/html.py
+++ b/pm4py/visualization/common/html.py
@@ -49,7 +49,7 @@ def form_html(gviz, name=None):
         html_file.close()
         name = html_file.name
 
-    F = open(name, "w")
+    F = open(name, "w", encoding=constants.DEFAULT_ENCODING)
     F.write('<html><head>')
     F.write('<script type="text/javascript" src="'+constants.JQUERY_LINK+'"></script>')
     F.write('<script type="text/javascript" src="'+constants.GRAPHVIZJS_LINK+'"></script>')
diff --git a/pm4py/visualization/dotted_chart/variants/classic.py b/pm4py/visualization/dotted_chart/variants/classic.py
index 8faeffa..d51bd6a 100644
--- a/pm4py/visualization/dotted_chart/variants/classic.py
+++ b/pm4py/visualization/dotted_chart/variants/classic.py
@@ -222,7 +222,7 @@ def apply(points_list: List[Any], attributes: List[str], parameters: Optional[Di
 
     lines = "\n".join(lines)
 
-    F = open(output_file_gv.name, "w")
+    F = open(output_file_gv.name, "w", encoding="utf-8")
     F.write(lines)
     F.close()
 
diff --git a/pm4py/visualization/performance_spectrum/variants/neato.py b/pm4py/visualization/performance_spectrum/variants/neato.py
index 5eb74fd..8c07d3a 100644
--- a/pm4py/visualization/performance_spectrum/variants/neato.py
+++ b/pm4py/visualization/performance_spectrum/variants/neato.py
@@ -153,7 +153,7 @@ def apply(perf_spectrum: Dict[str, Any], parameters: Optional[Dict[Union[str, Pa
     lines.append("}")
     lines = "\n".join(lines)
 
-    F = open(output_file_gv.name, "w")
+    F = open(output_file_gv.name, "w", encoding="utf-8")
     F.write(lines)
     F.close()
 
diff --git a/pm4py/visualization/powl/visualizer.py b/pm4py/visualization/powl/visualizer.py
index c299dd7..6df680d 100644
--- a/pm4py/visualization/powl/visualizer.py
+++ b/pm4py/visualization/powl/visualizer.py
@@ -86,7 +86,7 @@ def apply(powl: POWL, variant=DEFAULT_VARIANT, frequency_tags=True, parameters:
                 return base64.b64encode(file.read()).decode('utf-8')
 
         def read_file_content_and_viewbox(file_path):
-            with open(file_path, 'r') as file:
+            with open(file_path, 'r', encoding='utf-8') as file:
                 content = file.read()
                 content = re.sub(r'<\?xml.*?\?>', '', content, flags=re.DOTALL)
                 content = re.sub(r'<!DOCTYPE.*?>', '', content, flags=re.DOTALL)
@@ -139,7 +139,7 @@ def save(svg_content: str, output_file_path: str, parameters: Optional[Dict[Any,
 
     encoding = exec_utils.get_param_value(Parameters.ENCODING, parameters, "utf-8")
 
-    with tempfile.NamedTemporaryFile(delete=False, mode='w+', suffix='.svg') as tmpfile:
+    with tempfile.NamedTemporaryFile(delete=False, mode='w+', encoding=encoding, suffix='.svg') as tmpfile:
         tmpfile.write(svg_content)
         tmpfile_path = tmpfile.name
 
@@ -175,7 +175,7 @@ def view(svg_content: str, parameters: Optional[Dict[Any, Any]] = None):
     image_format = str(exec_utils.get_param_value(Parameters.FORMAT, parameters, "png")).lower()
     encoding = exec_utils.get_param_value(Parameters.ENCODING, parameters, "utf-8")
 
-    with tempfile.NamedTemporaryFile(delete=False, mode='w+', suffix='.svg') as tmpfile:
+    with tempfile.NamedTemporaryFile(delete=False, mode='w+', encoding=encoding, suffix='.svg') as tmpfile:
         tmpfile.write(svg_content)
         tmpfile_path = tmpfile.name
 
diff --git a/pm4py/visualization/sna/variants/pyvis.py b/pm4py/visualization/sna/variants/pyvis.py
index 51f8a7d..f4ccad7 100644
--- a/pm4py/visualization/sna/variants/pyvis.py
+++ b/pm4py/visualization/sna/variants/pyvis.py
@@ -110,7 +110,7 @@ def apply(sna: SNA, parameters=None):
 
     got_net.show_buttons(filter_=['nodes', 'edges', 'physics'])
 
-    F = open(temp_file_name, "w")
+    F = open(temp_file_name, "w", encoding="utf-8")
     try:
         F.write(got_net.generate_html())
         F.close()
-- 
2.43.0

