#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})
U = "nion/utils/"
prop("C01", "Selection contents follow each operation's set semantics within its style",
     "After any history of set, add, remove, toggle, extend, add_range, set_multiple and clear with integer indexes, an indexed selection holds exactly the indexes that history determines: in multiple style set replaces, add unions, remove subtracts, toggle flips, extend adds every index between the anchor and the given index inclusive, set_multiple replaces by the given set and clear empties. In single and single_or_none style at most one index is ever selected (add, set, extend and a one-element set_multiple select exactly the given index; clear and any other set_multiple select index 0 in single style and nothing in single_or_none; remove is ignored in single style), and in style none nothing is ever selected. Removing an index that is not selected raises KeyError and changes nothing.",
     ["inputs", "histories"], "every style, every selected set, every anchor, every index, every sequence of operations",
     "The suite makes one call (extend on an empty selection); the claim is over unbounded sets of unbounded integers and all operation orders.",
     [U + "Selection.py"], [("IndexedSelection mutators", "Selection.py: IndexedSelection.clear/add/remove/add_range/set_multiple/set/toggle/extend")],
     [("indexes", "the selected set", "Selection.py: __indexes"), ("anchor", "start of range extension", "Selection.py: __anchor_index")],
     ["IndexedSelection.indexes", "contains", "has_selection"])
prop("C02", "Selection anchor is a selected index and queries agree with the contents",
     "After any history of selection operations (set, add, remove, toggle, extend, add_range, set_multiple, clear, insert_index, remove_index) the anchor (never assigned an unselected index from outside) is one of the selected indexes, and is None exactly when nothing is selected; set makes the given index the anchor and adding to a non-empty multiple selection leaves the anchor alone. contains, has_selection and current_index (the index when exactly one is selected, otherwise None) agree with the selected set, and ordered_indexes lists every selected index once: the anchor first, the others ascending. Two selections compare equal exactly when selected set and anchor agree.",
     ["inputs", "histories"], "every reachable selection state and every operation on it",
     "Anchor handling is only sampled once; wrong anchors appear only after particular remove/insert orders.",
     [U + "Selection.py"], [("anchor maintenance", "Selection.py: IndexedSelection.__update_anchor_index and every mutator"), ("queries", "Selection.py: current_index, ordered_indexes, contains, has_selection, __eq__, __ne__")],
     [("anchor", "start of range extension", "Selection.py: __anchor_index")], ["anchor_index", "ordered_indexes", "current_index"])
prop("C03", "Selections keep designating the same items when positions shift",
     "insert_index(n) moves every selected index at or above n up by one and leaves the others; remove_index(n) drops n from the selection, moves every selected index above n down by one and leaves the others. The anchor moves the same way as the index it designates, and an anchor that is removed is replaced by a remaining selected index or None. Neither call changes anything else about the selection, and neither fires the changed event.",
     ["inputs", "histories"], "every selected set, every anchor, every insertion or removal position",
     "Two tests shift a two-element set once each; the claim is for every set and position, including boundaries and anchors.",
     [U + "Selection.py"], [("index shifting", "Selection.py: IndexedSelection.insert_index, remove_index")],
     [("indexes", "the selected set", "Selection.py: __indexes")], ["indexes", "anchor_index"])
prop("C04", "A selection announces exactly the changes of its selected set",
     "Each of set, add, remove, toggle, extend, set_multiple and clear fires the selection's changed event exactly once when the selected set after the call differs from the set before it, and not at all when it is the same; the event is fired after the new contents are in place. add_range fires once per index that was actually added, and the read-only queries never fire.",
     ["inputs", "histories"], "every style, state and operation argument",
     "No test observes the changed event.",
     [U + "Selection.py"], [("compare old and new set, then fire", "Selection.py: every mutator of IndexedSelection")],
     [("changed_event", "observable change signal", "Selection.py: __changed_event")], ["changed_event"])
prop("C05", "Events reach every open listener once, in order, with the fired arguments",
     "Firing an event calls each attached listener that is alive and not closed exactly once, in the order the listeners were attached and with the fired arguments, and calls no closed or released listener; an exception raised by a listener never reaches the code that fires (listeners after it may be left out of that firing, and fire_any and fire_all then return None). fire_any stops at and reports True for the first listener returning a true value and otherwise reports False; fire_all stops at and reports False for the first open listener returning a false value and otherwise reports True, closed listeners having no influence. A listener can be closed at any time (also from inside a callback or by leaving its with block) and is not called again afterwards.",
     ["inputs", "histories"], "any number of listeners, any mix of open, closed and released ones, any callback results, any arguments",
     "Events are only exercised indirectly, with at most two listeners, none closed while attached, and fire_any/fire_all never.",
     [U + "Event.py"], [("weak listener list in attach order", "Event.py: Event.listen"), ("dispatch", "Event.py: Event.fire, fire_any, fire_all"), ("closing", "Event.py: EventListener.close")],
     [("weak listeners", "attached tokens in order", "Event.py: __weak_listeners")], ["calls received by listeners", "return values of fire_any, fire_all"])
prop("C06", "Reference counts balance and release happens exactly once, at zero",
     "The reference count of a reference counted object is always the number of add_ref calls minus the number of remove_ref calls (a with block on ref() counts as one of each) and never becomes negative: remove_ref without a reference fails with an assertion and leaves the count alone. about_to_delete is called exactly once in the object's life, at the first remove_ref that checks and brings the count to zero, and never while references remain.",
     ["histories", "inputs"], "every count and every sequence of add_ref, remove_ref, remove_ref without check, with-blocks",
     "The class has no tests of its own.",
     [U + "ReferenceCounting.py"], [("counting under a lock", "ReferenceCounting.py: add_ref, remove_ref, ref")],
     [("count", "outstanding references", "ReferenceCounting.py: __ref_count"), ("active", "not yet released", "ReferenceCounting.py: __active")], ["ref_count", "about_to_delete calls"])
prop("C07", "The component registry answers exactly what is registered, best priority first",
     "For every history of registrations and unregistrations, the components reported for a type are exactly those registered for that type and not since unregistered for it; registering again for a type already held, or unregistering a type not held, fails with an assertion and changes nothing. get_component returns a component of highest priority among those registered for the type (50 when it has no priority attribute) and None when there is none. Each register and unregister fires its event once, with the component and exactly the set of types it added or withdrew; announcing the existing components of a type fires the registered event once for each component registered for it, with that type.",
     ["histories", "inputs"], "any number of components, types and priorities, any order of calls",
     "One test registers one component; with several components the wrong choice depends on set iteration order.",
     [U + "Registry.py"], [("two maps kept in step", "Registry.py: ComponentManager.register, unregister"), ("priority choice", "Registry.py: get_component")],
     [("components by type", "type -> components", "Registry.py: __components_by_type"), ("types by component", "component -> types", "Registry.py: __component_types")],
     ["get_components_by_type", "get_component", "component_registered_event", "component_unregistered_event"])
prop("C08", "Integer points, sizes and rectangles obey exact integer geometry",
     "For all integers, points, sizes and rectangles report back exactly the coordinates they were made from under every constructor and accessor (tuple order is y before x and height before width; right = left + width, bottom = top + height, the center is the floor midpoint), equality and inequality are complementary and compare coordinates, and point and size arithmetic is coordinatewise. Translating a rectangle, or adding or subtracting a point to one of non-negative size, moves its origin by exactly that vector and keeps its size; inset moves each side inwards by the given amounts; union and intersect have the min/max edges; contains_point is half-open (left/top in, right/bottom out), and intersects_rect holds exactly when neither rectangle lies strictly beyond an edge of the other.",
     ["inputs"], "all integer coordinates and sizes (center based operations: non-negative sizes up to 2**53)",
     "Three tests touch a handful of coordinates; off-by-one and swapped-axis errors need asymmetric or boundary values.",
     [U + "Geometry.py"], [("value classes", "Geometry.py: IntPoint, IntSize, IntRect"), ("free functions", "Geometry.py: inset_rect")], [], ["accessors and operators"])
prop("C09", "Float geometry transforms are affine, invertible and size-true",
     "Over real arithmetic, float points, sizes and rectangles report back the coordinates they were made from, arithmetic is coordinatewise, and translation, inset, union, intersect, containment, intersection, center and adding or subtracting a point to a rectangle are exact. Mapping a point, size or rectangle from one non-degenerate rectangle to another sends the corners and center of the first to those of the second, and mapping back restores the original; fitting a rectangle of positive size to an aspect ratio (or size) yields a rectangle of that ratio, centered in and contained in the original, touching it in at least one dimension. Rotation of a point about an origin keeps its distance to the origin and of a size keeps its length, rotation by zero changes nothing, and distance and midpoint are the Euclidean ones.",
     ["inputs"], "all real coordinates, sizes, non-degenerate frames, aspect ratios and angles (floating point rounding excluded)",
     "fit_to_size is tested on four rectangles and only for its ratio; mapping and rotation have no tests.",
     [U + "Geometry.py"], [("value classes", "Geometry.py: FloatPoint, FloatSize, FloatRect"), ("mapping", "Geometry.py: map_point, map_size, map_rect"), ("fitting", "Geometry.py: fit_to_aspect_ratio, fit_to_size"), ("free functions", "Geometry.py: distance, midpoint")], [], ["returned geometry"])
prop("C10", "Linear axis ticks are evenly spaced, pretty and cover the data range",
     "For every pair of distinct finite data bounds (given in either order) and every tick count of at least two, the linear ticks start at the reported minimum, end at the reported maximum, are spaced by the reported positive division, and minimum and maximum enclose the data with less than one division of slack at each end. The division is 1, 2, 5 or 10 times a power of ten, and there is one label per tick; equal bounds give that single value as the only tick, and ranges of infinite length give the single tick 0. A pretty number is never zero for a finite non-zero value, keeps its sign, and is 1, 2, 5 or 10 times a power of ten within a factor 2.5 of the value (for values of normal floating point magnitude).",
     ["inputs"], "all finite real bounds and tick counts (log10, pow and rounding abstracted by stated bounds)",
     "Tests list labels for a few ranges; collapsing ranges occur only for values next to a power of ten.",
     [U + "Geometry.py"], [("Heckbert numbers", "Geometry.py: make_pretty"), ("range", "Geometry.py: make_pretty_range2, LinearTicker")], [], ["LinearTicker.values, minimum, maximum, division, labels", "make_pretty"])
prop("C11", "List model notifications replay to an exact copy of the list",
     "After any history of insert_item, append_item, remove_item and clear_items on a list model, its items are exactly what the same operations produce on a plain list. Each inserted or removed item is announced by exactly one notification carrying the model's key ('items' when it has none), the item and its index, sent after the list has changed, so an observer that applies the notifications in order to a copy always holds exactly the items. An item is also reachable through the attribute named by the key and any other unknown attribute raises AttributeError.",
     ["histories", "inputs"], "any initial items, any valid indexes, any values, any sequence of operations",
     "Tests replay three edits on three strings.",
     [U + "ListModel.py", U + "Observable.py"], [("mutate then notify", "ListModel.py: ListModel.insert_item, remove_item, append_item, clear_items"), ("notification", "Observable.py: notify_insert_item, notify_remove_item")],
     [("items", "the list", "ListModel.py: ListModel.__items")], ["items", "item_inserted_event", "item_removed_event"])
prop("C12", "A mapped list always equals its container's list mapped item by item",
     "At every moment after construction, insertion, removal or container change, the items of a mapped list model are, position by position, the results of applying the map function to the container's current items, each item being mapped once when it enters and the very same mapped object being passed to the unmap function and announced when it leaves. Every change is announced with the items key, the mapped item and its index so that observers replaying the notifications hold an exact copy, and changes of the container under other keys have no effect.",
     ["histories", "inputs"], "any map function, any container contents, any valid insert and remove positions, container replacement and closing",
     "Tests insert or delete once in a list of two or three.",
     [U + "ListModel.py"], [("mirror container events", "ListModel.py: MappedListModel.__master_item_inserted, __master_item_removed, container setter")],
     [("items", "mapped items", "ListModel.py: MappedListModel.__items")], ["items", "item_inserted_event", "item_removed_event"])
prop("C13", "A filtered list holds exactly the matching items, in container or sort order",
     "Whenever no change block is open, the items of a filtered list model are exactly the container items that match the current filter, each once; without a sort key they appear in container order, and with one they are ordered by it (descending when sort_reverse is set). This holds after construction, insertions and removals in the container, content changes announced by items (whatever they do to filter result or sort key; each announced before the next operation), changes of filter, sort key, sort direction and container, and at the end of change blocks in which any number of these happened.",
     ["histories", "inputs"], "any container of distinct items, any filter predicate, any totally ordered sort key, any sequence of the listed operations and nested change blocks",
     "Tests use four strings; misplacement depends on which elements a binary search probes and on what happened inside a change block.",
     [U + "ListModel.py"], [("insertion point search", "ListModel.py: FilteredListModel.__find_sorted_index_for_item, __find_unsorted_index_for_item"), ("incremental update", "ListModel.py: __inserted_master_item, __removed_master_item, __updated_master_item, __insert_item, __remove_item"), ("rebuild", "ListModel.py: __build_items, __update_items")],
     [("master items", "copy of container items", "ListModel.py: FilteredListModel.__master_items"), ("items", "filtered items", "ListModel.py: FilteredListModel.__items"), ("items sorted", "items are in build order", "ListModel.py: __items_sorted")], ["items"])
prop("C14", "Filtered list notifications replay to an exact copy and are bracketed",
     "Every change of a filtered list model's items is announced by insert and remove notifications carrying the items key, the item actually inserted or removed and its index at that moment, so an observer applying them in order always holds exactly the items. Begin-changes and end-changes events with the items key bracket every group of notifications and always balance, and while a change block is open no item notification is sent.",
     ["histories", "inputs"], "any sequence of operations on container, items, filter, sort and change blocks",
     "Tests count begin/end events for one insert and one remove; no test checks the announced item of a rebuild.",
     [U + "ListModel.py"], [("change generation", "ListModel.py: FilteredListModel.__update_items, __insert_item, __remove_item"), ("change blocks", "ListModel.py: begin_change, end_change, changes")],
     [("change level", "open change blocks", "ListModel.py: FilteredListModel.__change_level")], ["item_inserted_event", "item_removed_event", "begin_changes_event", "end_changes_event"])
prop("C15", "A flattened list is the concatenation of its masters' children",
     "At every moment after construction, insertion or removal of a master item (with any number of children), insertion or removal of a child, container change or closing, the items of a flattened list model are the concatenation, in container order, of the master items' child lists. Every change is announced with the items key, the child item and its index in the flattened list, so observers replaying the notifications hold an exact copy; changes under other keys have no effect.",
     ["histories", "inputs"], "any number of masters, any child lists including empty ones, any valid positions",
     "Five tests use three fixed masters and change one position each.",
     [U + "ListModel.py"], [("offset computation", "ListModel.py: FlattenedListModel.__child_item_inserted, __child_item_removed"), ("masters", "ListModel.py: FlattenedListModel.__master_item_inserted, __master_item_removed, container setter")],
     [("items", "flattened items", "ListModel.py: FlattenedListModel.__items"), ("children", "children per master", "ListModel.py: __children")], ["items", "item_inserted_event", "item_removed_event"])
prop("C16", "Selections attached to mapped and flattened lists follow their items",
     "A selection attached to a mapped or flattened list model (passed in or obtained from make_selection and not released) designates after every insertion and removal in the underlying lists the same items as before, minus removed ones: indexes of the model's items at or after an insertion point move up, indexes after a removed item move down, and nothing else changes. Released selections are left alone.",
     ["histories", "inputs"], "any selected set, any number of selections, any change position, any offsets of the flattened child lists",
     "Two tests check one insert and one remove in a mapped list; the flattened list's selection is untested.",
     [U + "ListModel.py", U + "Selection.py"], [("shift attached selections", "ListModel.py: MappedListModel.__master_item_inserted/__master_item_removed, FlattenedListModel.__child_item_inserted/__child_item_removed, make_selection, release_selection")],
     [("selections", "attached selections", "ListModel.py: __selections")], ["IndexedSelection.indexes"])
prop("C17", "Filters combine as boolean algebra and copies match the same items",
     "For every item, an and-filter matches exactly when all its sub-filters match, an or-filter when at least one does (so empty ones match everything and nothing), a not-filter when its sub-filter does not; equality filters compare the named attribute with the given value (or given comparison), not-equal filters negate that, prefix and text filters test prefix and case-insensitive substring, partial date filters test each given component, and a plain filter returns its default. A deep copy of any filter matches exactly the same items as the original, also when the list passed to the original's constructor is changed later.",
     ["inputs"], "any filter tree, any item, any attribute values",
     "Only the predicate filter is used in tests; no test copies a filter.",
     [U + "ListModel.py"], [("matches", "ListModel.py: Filter and subclasses .matches"), ("copying", "ListModel.py: __deepcopy__ of Filter and subclasses")], [], ["matches"])
prop("C18", "Property bindings keep target and source consistent through conversion",
     "Whenever the bound source property is announced as changed, a binding passes its target setter exactly once the converted property value (attribute or tuple element of it, for those bindings), or the fallback when there is no value; announcements for other properties do nothing. Updating the source from a target value sets the bound property (attribute, or tuple element, padding with None and leaving the other elements alone) to the validated, back-converted value; the initial target value is the converted source value or the fallback. A list binding relays insertions and removals under its key, with item and index, to its inserter and remover, and after close a binding calls neither target nor source any more.",
     ["inputs", "histories"], "any property names, values, converters, validators, fallbacks, tuple lengths and indexes",
     "Three tests cover list relay and one tuple padding; converter, validator, fallback, attribute bindings and closing are untested.",
     [U + "Binding.py"], [("conversion chain", "Binding.py: Binding.update_source, update_target, get_target_value"), ("property tracking", "Binding.py: PropertyBinding, PropertyAttributeBinding, TuplePropertyBinding, ListBinding")],
     [], ["target_setter, inserter, remover calls", "source property"])
prop("C19", "Converters and validators respect range and round-trip",
     "Converting a value and back restores it: any int through the default integer string, True/False through check states, version-4 UUIDs through their strings, naive datetimes through their ISO strings, non-empty paths through theirs; None converts to None for UUID, path, datetime and pass-none converters and text that is no version-4 UUID or no such date converts back to None. Scaled integer conversion maps the value range monotonically onto 0..n with the end points exact, and converting back gives a value at most one step below the original; a percentage string is the truncated percentage and converts back to within one percent; a float is written in its format and reads back as the number written, whatever the decimal point of the locale, trailing text being ignored and text without a number read as zero unless strict; a physical value string carries value times multiplier and the units, and converts back by dividing by the multiplier. The integer range validator returns the value itself when it lies within the given bounds and otherwise the violated bound.",
     ["inputs"], "all ints, bools, UUIDs, datetimes, reals (floating point rounding excluded), bounds with minimum not above maximum",
     "One test evaluates three scaled values; validators and all other converters are untested.",
     [U + "Converter.py", U + "Validator.py"], [("convert / convert_back", "Converter.py: all classes"), ("validate", "Validator.py: IntegerRangeValidator.validate")], [], ["convert", "convert_back", "validate"])
prop("C20", "Observed values announce exactly the real changes",
     "Setting a property model's value notifies observers of 'value' exactly once, and calls the on_value_changed callback once with the new value, when the new value differs from the old one under the model's comparison (None differs from everything but None and is never passed to the comparison), and does nothing otherwise; reading returns the value last accepted. Setting a value stream's value likewise fires it once with the new value exactly when it changed, and a stream value model always holds the latest value of its stream until it is closed.",
     ["inputs", "histories"], "all values including None, any comparison function, any sequence of assignments",
     "PropertyModel and ValueStream are only reached indirectly, never with None, custom comparison or equal values.",
     [U + "Model.py", U + "Stream.py"], [("change detection", "Model.py: PropertyModel.value setter"), ("stream", "Stream.py: ValueStream.value setter"), ("follow", "Model.py: StreamValueModel")],
     [("value", "held value", "Model.py: PropertyModel.__value")], ["property_changed_event", "on_value_changed", "value_stream"])
prop("C21", "Derived streams always hold the operator applied to their inputs' latest values",
     "After construction and after every value sent by an input stream, a mapped stream's value is its function of the latest input value, a combined stream's value is its function (the tuple by default) of the latest values of all inputs in order, a property stream's value is the current value of the observed property of the latest source object, a concatenated stream's value is the latest value of the stream made from the latest input, and a constant stream's value is its constant. Each derived value is sent on once when it is updated (map and property streams: only when it differs from the previous one), values are sent after they can be read, and nothing is derived from an input any more after closing or, for property and concatenated streams, from a replaced source.",
     ["inputs", "histories"], "any number of inputs, any functions, any value sequences including None",
     "Streams have no tests.",
     [U + "Stream.py"], [("operators", "Stream.py: MapStream, CombineLatestStream, PropertyChangedEventStream, ConcatStream, ConstantStream")], [], ["value", "value_stream"])
prop("C22", "Derived streams hold exactly one reference on each input until released",
     "Constructing a derived stream (map, combine, debounce, sample, property, concatenate) or a stream value model takes exactly one reference on each stream it reads, and closing it, which also happens when its own last reference is removed, gives back exactly those references; a concatenated stream releases each stream it made when the next one replaces it or it is closed. So once every user has released its references every input stream has been released exactly once.",
     ["histories", "inputs"], "any graph of streams, any number of inputs, any order of value changes before closing",
     "No test counts stream references.",
     [U + "Stream.py", U + "Model.py", U + "ReferenceCounting.py"], [("add_ref in __init__, remove_ref in close", "Stream.py: MapStream, CombineLatestStream, DebounceStream, SampleStream, PropertyChangedEventStream, ConcatStream; Model.py: StreamValueModel"), ("close on last release", "Stream.py: AbstractStream.about_to_delete")],
     [], ["ref_count of input streams"])
prop("C23", "Sampled and debounced streams deliver the latest value",
     "When a debounce period elapses, a debounce stream sends the latest input value known at that moment exactly once, and it starts a new period exactly when a value arrives with none pending (also when it arrives in response to the value being sent). When a sampling period elapses, a sample stream sends and from then on holds the latest input value if any value arrived since the last sample (the value at construction counts as arrived), and sends nothing otherwise. After closing neither sends anything.",
     ["histories", "schedules"], "any interleaving of value arrivals, period expirations and closing on one event loop",
     "Streams have no tests; the claim is over all orders of arrivals and timer expirations.",
     [U + "Stream.py"], [("debounce", "Stream.py: DebounceStream.__value_changed, debounce_delay"), ("sample", "Stream.py: SampleStream.sample_loop, __value_changed")],
     [("pending value", "latest unsent value", "Stream.py: SampleStream.__pending_value")], ["value_stream", "value"])
prop("C24", "A promise computes its value at most once and keeps it",
     "The function given to a promise is not called before the value is first read, is called at most once with success over any number of reads, and every read returns the value it produced; if it raises, the exception reaches the reader and the next read tries again. The optional value is None and has_value is False until then, and afterwards they report the computed value and that it is not None, without calling the function.",
     ["histories", "inputs"], "any function, any sequence of value, opt_value and has_value reads",
     "Promise has no tests.",
     [U + "Promise.py"], [("evaluate and forget the function", "Promise.py: Promise.value")], [("fn", "pending function", "Promise.py: __fn")], ["value", "opt_value", "has_value"])
prop("C25", "Queued work runs exactly once and in order; cancelled work never runs",
     "perform_tasks on a task queue runs exactly the tasks that were queued when it was called, each once, in the order they were queued, leaving tasks queued meanwhile for the next call; clear_tasks discards them without running any. A task set runs, once each, the latest task added under each key since the last run and not cleared. A pool task runs its function at most once, never after it was cancelled, and reports its end exactly once; a pool driven without threads runs queued functions in order, exactly once, forgets each one when it is finished, and after close runs nothing and accepts nothing more.",
     ["histories", "inputs"], "any number of tasks, keys and call sequences, including tasks that queue or cancel others and pool functions that raise (single-threaded use)",
     "Process and ThreadPool have no tests.",
     [U + "Process.py", U + "ThreadPool.py"], [("queue", "Process.py: TaskQueue, TaskSet"), ("pool", "ThreadPool.py: ThreadPoolTask, ThreadPool.queue_fn, run_all, run_one, close")], [], ["calls of the queued functions"])
prop("C26", "Persistent properties are written through and round-trip",
     "Setting a persistent property stores the validated (or copied) value, calls its changed callback once with name and stored value, counts as one modification of the object and of every ancestor, and, when the object is in a persistent context, writes exactly the property's storage key with its converted value to the object's storage, or clears exactly that storage key when there is no value; read-only properties refuse assignment. Reading a property from the dict it was written to restores the value, reading from a dict without its key leaves it alone, and a copy-on-read property never hands out its stored object.",
     ["inputs", "histories"], "any values, names, storage keys, converters, validators, nesting depth of parents",
     "Only reading from an empty dict is tested.",
     [U + "Persistence.py"], [("property", "Persistence.py: PersistentProperty.set_value, read_from_dict, write_to_dict, PersistentPropertySpecial"), ("write through", "Persistence.py: PersistentObject.__setattr__, _set_persistent_property_value, _update_persistent_object_context_property"), ("modification count", "Persistence.py: PersistentObject.__update_modified")],
     [], ["property value", "persistent storage calls", "modified_count"])
prop("C27", "A persistent object tree survives writing, reading and copying",
     "Writing an object to a dict and reading that dict into a fresh object of the same kind yields an object with the same uuid and type, equal property values, and equal items and relationships in the same order, recursively; a deep copy has the same contents, equal but not shared, under its own uuid. Inserting, appending, setting and removing items changes exactly the named item or relationship at the given position, calls its callback once with name, index and item, makes the object the parent of the item put in and takes the parent away from an item removed, counts as one modification, and reports the change to the storage once when the object is in a persistent context.",
     ["inputs", "histories"], "any values, any number of related objects, any insert and remove positions",
     "Only reading from an empty dict is tested.",
     [U + "Persistence.py"], [("dict form", "Persistence.py: PersistentObject.write_to_dict, read_from_dict, __deepcopy__, deepcopy_from"), ("relationships", "Persistence.py: insert_item, append_item, remove_item, set_item, extend_items")],
     [], ["write_to_dict", "attributes", "persistent storage calls", "callbacks"])
prop("C28", "The persistent context knows exactly the live registered objects",
     "A persistent object context returns for a uuid exactly the object most recently registered under it and not unregistered since, while it is alive (an object is unregistered only while it is the one registered under its uuid); subscribers for that uuid are told once when it becomes registered (immediately if it already is) and once when it is unregistered, which ends the subscription; the registration event is fired once for each. Setting or clearing the context of a persistent object registers or unregisters it and every object below it in its items and relationships exactly once, and storage requests for an object go to its own storage or else to that of its nearest ancestor that has one.",
     ["histories", "inputs"], "any objects, uuids, subscription orders and tree shapes",
     "Four tests make one registration each, with one subscriber at most.",
     [U + "Persistence.py"], [("registration", "Persistence.py: PersistentObjectContext.register, unregister, subscribe, get_registered_object"), ("propagation", "Persistence.py: PersistentObject.persistent_object_context setter"), ("storage lookup", "Persistence.py: _get_persistent_storage_for_object")],
     [("objects", "uuid -> object", "Persistence.py: PersistentObjectContext.__objects"), ("subscriptions", "uuid -> callbacks", "Persistence.py: __subscriptions")], ["get_registered_object", "subscriber calls", "registration_event"])
prop("C29", "Structured models hold the given values, copy deeply and report every change",
     "A model built from a schema holds for every field the given value, or the field's default when none is given, for all field types (string, boolean, int, float, records and arrays of them, nested); its dict value contains exactly the fields that have a value, and a deep copy or copy_from of a model whose fields all have values has the same dict value while sharing no state. Setting a field changes only that field and, when the value differs, announces the field name once; inserting or removing array elements announces field name, element and index; and every change anywhere inside a model, including in elements inserted later and not in removed ones, fires model_changed of the model and each enclosing model.",
     ["inputs", "histories"], "any schema, any values and defaults, any sequence of field changes and array edits",
     "Tests use one-level examples without a default and a value together, no float field, and no element order changes before a removal.",
     [U + "StructuredModel.py"], [("building", "StructuredModel.py: build_model, build_value, RecordModel.__init__, ArrayModel.__init__"), ("copying", "StructuredModel.py: to_dict_value, from_dict_value, copy_from, __deepcopy__"), ("change propagation", "StructuredModel.py: RecordModel.__init__ listeners, ArrayModel.notify_insert_item, notify_remove_item")],
     [("array listeners", "one per element, in element order", "StructuredModel.py: ArrayModel.__model_changed_listeners")], ["field values", "property_changed_event", "item_inserted_event", "item_removed_event", "model_changed_event", "to_dict_value"])
prop("C30", "Thread pools and dispatchers keep their promises under every schedule",
     "With worker threads, every function queued before close runs at most once and on one thread only, close returns only after no queued function is running, a dispatcher runs its function after each trigger and never more often than its minimum interval, and a waiting trigger returns only after a run that started after it.",
     ["schedules"], "all interleavings of callers, workers, the dispatcher thread and close",
     "ThreadPool has no tests; the claim is over all thread interleavings.",
     [U + "ThreadPool.py", U + "Process.py"], [("worker threads", "ThreadPool.py: ThreadPool.start, __run, close"), ("dispatcher", "ThreadPool.py: ThreadDispatcher")], [], ["calls of the queued functions"])
prop("C31", "Logarithmic axis ticks are evenly spaced exponents covering the data range",
     "For every pair of finite exponent bounds low <= high (within the float range, not closer together than rounding can tell) and every tick count of at least one, the major ticks of a logarithmic ticker are increasing exponents, evenly spaced by its division (a whole number) times a power of the base; the first is not above low and the last not below high. The minor ticks are exactly those listed in minor_tick_indices; each lies strictly between its major tick and the next (after the last one: within one step of it), so that all ticks increase, and every major tick has the same minor ticks. There is one label per tick. Bounds that are not finite give the single tick 1.",
     ["inputs"], "all finite bounds and tick counts; bases other than ten by concrete runs",
     "Tests list the labels of a few ranges.",
     [U + "Geometry.py"], [("LogTicker", "Geometry.py: LogTicker.__init__")], [], ["LogTicker.values, labels, minor_tick_indices"])
prop("C32", "A recorder replays the recorded edits onto an equal object",
     "Applying a recorder to a copy of the recorded object made before the recorded edits leaves the copy with the same recordable property values and the same relationships as the edited object.",
     ["histories"], "any sequence of property changes, item and relationship edits, at any nesting",
     "Recorder has no tests.",
     [U + "Recorder.py"], [("edit log", "Recorder.py: Recorder.__property_changed, __item_inserted, __item_removed, __item_set, apply")], [], ["state of the object after apply"])
prop("C33", "Observable objects relay each notification through exactly its own event",
     "Each notification method of an observable object (property changed; item set, cleared; item inserted, removed; item added, discarded; item content changed) fires the event of that name on that object exactly once with exactly the arguments given, in order (key, then item or value, then index), and fires no other event of that object and none of any other observable object. Every observable object has all eight events of its own from construction on.",
     ["inputs", "histories"], "any keys, items and indexes, any number of observable objects, any sequence of notifications",
     "Tests observe property changes and list insertions and removals of a few objects; set, clear, add, discard and content notifications and the absence of others are never observed.",
     [U + "Observable.py"], [("notification methods", "Observable.py: Observable.notify_property_changed, notify_set_item, notify_clear_item, notify_insert_item, notify_remove_item, notify_add_item, notify_discard_item, notify_item_content_changed")],
     [], ["the eight events of Observable"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
