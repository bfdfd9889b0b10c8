"""Behaviour-preserving rewrites (name, "checks", [(file, old, new)...])."""
REFACTORINGS = []
_r = lambda name, props, *edits: REFACTORINGS.append((name, props, list(edits)))

# ---- ListModel
_r("list-clear-for", "C11", ("ListModel.py", """        while self.__items:
            self.remove_item(len(self.__items) - 1)
""", """        for index in reversed(range(len(self.__items))):
            self.remove_item(index)
"""))
_r("list-remove-pop", "C11", ("ListModel.py", """        value = self.__items[index]
        del self.__items[index]
        self.notify_remove_item(self.__key if self.__key else "items", value, index)
""", """        value = self.__items.pop(index)
        self.notify_remove_item(self.__event_key(), value, index)

    def __event_key(self) -> str:
        return self.__key or "items"
"""))
_r("list-insert-slice", "C11", ("ListModel.py", """        self.__items.insert(index, value)
        self.notify_insert_item(self.__key if""", """        self.__items[index:index] = [value]
        self.notify_insert_item(self.__key if"""))
_r("filters-loop", "C17", ("ListModel.py", """        return all(map(operator.methodcaller('matches', d), self.__filters))
""", """        for f in self.__filters:
            if not f.matches(d):
                return False
        return True
"""), ("ListModel.py", """        return any(map(operator.methodcaller('matches', d), self.__filters))
""", """        return any(f.matches(d) for f in self.__filters)
"""))
_r("filters-date", "C17", ("ListModel.py", """        if self.__year and d_value.year != self.__year:
            return False
        if self.__month and d_value.month != self.__month:
            return False
        if self.__day and d_value.day != self.__day:
            return False
        return True
""", """        for wanted, name in ((self.__year, "year"), (self.__month, "month"), (self.__day, "day")):
            if wanted and getattr(d_value, name) != wanted:
                return False
        return True
"""))
_r("filters-text", "C17", ("ListModel.py", "return d_value.find(self.__lower_text) >= 0", "return self.__lower_text in d_value"))
_r("filtered-sorted-index", "C13 C14", ("ListModel.py", """        low = 0
        high = len(items)
        while low < high:
            mid = (low + high) // 2
            if sort_operator(sort_key(items[mid]), item_sort_key):
                low = mid + 1
            else:
                high = mid
        return low
""", """        start, end = 0, len(items)
        while end > start:
            middle = start + (end - start) // 2
            middle_key = sort_key(items[middle])
            if not sort_operator(middle_key, item_sort_key):
                end = middle
                continue
            start = middle + 1
        return start
"""))
_r("filtered-sorted-recursive", "C13 C14", ("ListModel.py", """        low = 0
        high = len(items)
        while low < high:
            mid = (low + high) // 2
            if sort_operator(sort_key(items[mid]), item_sort_key):
                low = mid + 1
            else:
                high = mid
        return low
""", """        for index, item_ in enumerate(items):
            if not sort_operator(sort_key(item_), item_sort_key):
                return index
        return len(items)
"""))
_r("filtered-unsorted-index", "C13 C14", ("ListModel.py", """        index = 0
        for item_ in master_items:
            if item_ == item:
                break
            if filter.matches(item_):
                index += 1
        return index
""", """        return len([item_ for item_ in master_items[:master_items.index(item)] if filter.matches(item_)])
"""))
_r("filtered-unsorted-sum", "C13 C14", ("ListModel.py", """        index = 0
        for item_ in master_items:
            if item_ == item:
                break
            if filter.matches(item_):
                index += 1
        return index
""", """        count = 0
        for i in range(len(master_items)):
            candidate = master_items[i]
            if candidate == item:
                return count
            count += 1 if filter.matches(candidate) else 0
        return count
"""))
_r("filtered-build-comp", "C13 C14", ("ListModel.py", """        items = list()
        for item in master_items:
            # apply filter
            if self.filter.matches(item):
                # add item and its dependent items
                items.append(item)
        return items
""", """        return [item for item in master_items if self.filter.matches(item)]
"""))
_r("filtered-build-filter", "C13 C14", ("ListModel.py", """        if self.sort_key:
            master_items.sort(key=self.sort_key, reverse=self.sort_reverse)
        # construct""", """        if self.sort_key:
            master_items = sorted(master_items, key=self.sort_key, reverse=self.sort_reverse)
        # construct"""), ("ListModel.py", """            if self.filter.matches(item):
                # add item and its dependent items
                items.append(item)
        return items
""", """            if not self.filter.matches(item):
                continue
            items.append(item)
        return items
"""))
_r("filtered-update-helper", "C13 C14", ("ListModel.py", """                for item in reversed(old_items):
                    # remove all items
                    self.__items.pop()
                    self.notify_remove_item(self.__items_key, item, len(self.__items))
                for item in items:
                    # insert all items, but items are already sorted
                    item_index = len(self.__items)
                    self.__items.append(item)
                    self.notify_insert_item(self.__items_key, item, item_index)
""", """                self.__replace_all(items)
"""), ("ListModel.py", """    # thread safe.
    def __update_items(self):
""", """    def __replace_all(self, items):
        while self.__items:
            item = self.__items.pop()
            self.notify_remove_item(self.__items_key, item, len(self.__items))
        for item_index, item in enumerate(items):
            self.__items.append(item)
            self.notify_insert_item(self.__items_key, item, item_index)

    # thread safe.
    def __update_items(self):
"""))
_r("filtered-update-remove", "C13 C14", ("ListModel.py", """                items_removed = 0
                # remove old items by iterating through all and checking whether in remove items set
                for index, item in enumerate(old_items):
                    if item in remove_items_set:
                        item_index = index - items_removed
                        del self.__items[item_index]
                        self.notify_remove_item(self.__items_key, item, item_index)
                        items_removed += 1
""", """                item_index = 0
                for item in old_items:
                    if item not in remove_items_set:
                        item_index += 1
                        continue
                    self.__items.pop(item_index)
                    self.notify_remove_item(self.__items_key, item, item_index)
"""))
_r("filtered-update-remove2", "C13 C14", ("ListModel.py", """                items_removed = 0
                # remove old items by iterating through all and checking whether in remove items set
                for index, item in enumerate(old_items):
                    if item in remove_items_set:
                        item_index = index - items_removed
                        del self.__items[item_index]
                        self.notify_remove_item(self.__items_key, item, item_index)
                        items_removed += 1
""", """                self.__remove_old_items(old_items, remove_items_set)
"""), ("ListModel.py", """    # thread safe.
    def __update_items(self):
""", """    def __remove_old_items(self, old_items, remove_items_set):
        removed_count = 0
        for index, item in enumerate(old_items):
            if item in remove_items_set:
                item_index = index - removed_count
                removed_count += 1
                del self.__items[item_index]
                self.notify_remove_item(self.__items_key, item, item_index)

    # thread safe.
    def __update_items(self):
"""))
_r("filtered-insert-helper", "C13 C14", ("ListModel.py", """        items = self.__items
        if sort_key is not None:
            sort_operator = operator.gt if self.sort_key and self.sort_reverse else operator.lt
            before_index = self.__find_sorted_index_for_item(item, items, sort_key, sort_operator)
        else:
            before_index = self.__find_unsorted_index_for_item(item, self._get_master_items(), self.filter)
        self.__items.insert(before_index, item)
        self.begin_changes_event.fire(self.__items_key)
        self.notify_insert_item(self.__items_key, item, before_index)
        self.end_changes_event.fire(self.__items_key)
""", """        before_index = self.__before_index(item, sort_key)
        self.__items.insert(before_index, item)
        self.begin_changes_event.fire(self.__items_key)
        self.notify_insert_item(self.__items_key, item, before_index)
        self.end_changes_event.fire(self.__items_key)

    def __before_index(self, item, sort_key):
        if sort_key is None:
            return self.__find_unsorted_index_for_item(item, self._get_master_items(), self.filter)
        if self.sort_key and self.sort_reverse:
            sort_operator = operator.gt
        else:
            sort_operator = operator.lt
        return self.__find_sorted_index_for_item(item, self.__items, sort_key, sort_operator)
"""))
_r("filtered-updated", "C13 C14", ("ListModel.py", """                    if not item in items:
                        # item is not in list, just insert. the before_index we pass will not be used so just pass 0
                        self.__inserted_master_item(0, item)
            else:
                # item will not be in list
                if item in items:
                    # item already in list
                    index = items.index(item)
                    self.__removed_master_item(index, item)
""", """                    if item not in items:
                        self.__inserted_master_item(0, item)
            elif item in items:
                self.__removed_master_item(items.index(item), item)
"""), ("ListModel.py", """                        other_items = items[:index] + items[index + 1:]
""", """                        other_items = list(items)
                        del other_items[index]
"""))
_r("filtered-ordered-loop", "C13 C14", ("ListModel.py", """            items_ordered = [item for item in old_items if item in new_items_set] == [item for item in items if item in old_items_set]
""", """            kept_old = list()
            for item in old_items:
                if item in new_items_set:
                    kept_old.append(item)
            kept_new = list()
            for item in items:
                if item in old_items_set:
                    kept_new.append(item)
            items_ordered = kept_old == kept_new
"""))
_r("filtered-container-helper", "C13 C14", ("ListModel.py", """            if self.__begin_changes_event_listener:
                self.__begin_changes_event_listener.close()
                self.__begin_changes_event_listener = None
            if self.__end_changes_event_listener:
                self.__end_changes_event_listener.close()
                self.__end_changes_event_listener = None
            if self.__reset_list_event_listener:
                self.__reset_list_event_listener.close()
                self.__reset_list_event_listener = None
            for item in reversed""", """            self.__stop_listening()
            for item in reversed"""), ("ListModel.py", """    # thread safe.
    def __update_items(self):
""", """    def __stop_listening(self):
        if self.__begin_changes_event_listener:
            self.__begin_changes_event_listener.close()
            self.__begin_changes_event_listener = None
        if self.__end_changes_event_listener:
            self.__end_changes_event_listener.close()
            self.__end_changes_event_listener = None
        if self.__reset_list_event_listener:
            self.__reset_list_event_listener.close()
            self.__reset_list_event_listener = None

    # thread safe.
    def __update_items(self):
"""))
_r("mapped-pop", "C15 C16", ("ListModel.py", """                mapped_item = self.__items[index]
                if callable(self.__unmap_fn):
                    self.__unmap_fn(mapped_item)
                del self.__items[index]
                self.notify_remove_item(self.__items_key, mapped_item, index)
""", """                mapped_item = self.__items.pop(index)
                if callable(self.__unmap_fn):
                    self.__unmap_fn(mapped_item)
                self.notify_remove_item(self.__items_key, mapped_item, index)
"""))
_r("mapped-range", "C15 C16", ("ListModel.py", """            for index, item in enumerate(getattr(self.__container, self.__master_items_key)):
                self.__master_item_inserted(self.__master_items_key, item, index)

    def make_selection(self):
        selection = Selection.IndexedSelection()
        self.__selections.append(selection)
        return selection

    def release_selection(self, selection):
        # selections compare equal when they select the same; release this one
        del self.__selections[[s is selection for s in self.__selections].index(True)]

    # thread safe.
    def __master_item_inserted(""", """            master_items = getattr(self.__container, self.__master_items_key)
            for index in range(len(master_items)):
                self.__master_item_inserted(self.__master_items_key, master_items[index], index)

    def make_selection(self):
        selection = Selection.IndexedSelection()
        self.__selections.append(selection)
        return selection

    def release_selection(self, selection):
        # selections compare equal when they select the same; release this one
        del self.__selections[[s is selection for s in self.__selections].index(True)]

    # thread safe.
    def __master_item_inserted("""))
_r("select-release-loop", "C15 C16 C13", ("ListModel.py", """        del self.__selections[[s is selection for s in self.__selections].index(True)]
""", """        for index, selection_ in enumerate(self.__selections):
            if selection_ is selection:
                del self.__selections[index]
                return
        raise ValueError()
"""))
_FL = """            master_index = 0
            for master_item_ in self.__master_items:
                if master_item_ == master_item:
                    break
                master_index += len(self.__children.get(master_item_, list()))
"""
_r("flat-helper", "C15 C16", ("ListModel.py", _FL, "            master_index = self.__first_index(master_item)\n"), ("ListModel.py", """    def __child_item_removed(self,""", """    def __first_index(self, master_item):
        first_index = 0
        for candidate in self.__master_items:
            if candidate == master_item:
                return first_index
            first_index += len(self.__children.get(candidate, list()))
        return first_index

    def __child_item_removed(self,"""))
_r("flat-sum", "C15 C16", ("ListModel.py", _FL, "            master_index = sum(len(self.__children.get(m, ())) for m in self.__master_items[:self.__master_items.index(master_item)])\n"))
_r("flat-while", "C15 C16", ("ListModel.py", _FL, """            master_index = 0
            i = 0
            while self.__master_items[i] != master_item:
                master_index += len(self.__children.get(self.__master_items[i], list()))
                i += 1
"""))
_r("flat-removed-while", "C15 C16", ("ListModel.py", """                for index_, child_item in reversed(list(enumerate(getattr(item, self.__child_items_key)))):
                    self.__child_item_removed(item, self.__child_items_key, child_item, index_)
""", """                child_items = getattr(item, self.__child_items_key)
                for index_ in range(len(child_items) - 1, -1, -1):
                    self.__child_item_removed(item, self.__child_items_key, child_items[index_], index_)
"""))
_r("flat-setdefault", "C15 C16", ("ListModel.py", """            self.__children.setdefault(master_item, list()).insert(before_index, item)
""", """            if master_item not in self.__children:
                self.__children[master_item] = list()
            self.__children[master_item].insert(before_index, item)
"""))
# ---- Selection
_r("sel-insert-comp", "C12", ("Selection.py", """        new_indexes = set()
        for index in self.__indexes:
            if index < new_index:
                new_indexes.add(index)
            else:
                new_indexes.add(index + 1)
""", """        new_indexes = {index if index < new_index else index + 1 for index in self.__indexes}
"""))
_r("sel-remove-comp", "C12", ("Selection.py", """        new_indexes = set()
        for index in self.__indexes:
            if index != remove_index:
                if index > remove_index:
                    new_indexes.add(index - 1)
                else:
                    new_indexes.add(index)
""", """        new_indexes = set(index - 1 if index > remove_index else index for index in self.__indexes if index != remove_index)
"""))
_r("sel-extend-update", "C12", ("Selection.py", """                if index > self.__anchor_index:
                    for new_index in range(self.__anchor_index, index + 1):
                        self.__indexes.add(new_index)
                elif index < self.__anchor_index:
                    for new_index in range(index, self.__anchor_index + 1):
                        self.__indexes.add(new_index)
""", """                if index != self.__anchor_index:
                    first, last = min(index, self.__anchor_index), max(index, self.__anchor_index)
                    self.__indexes.update(range(first, last + 1))
"""))
_r("sel-extend-while", "C12", ("Selection.py", """                    for new_index in range(self.__anchor_index, index + 1):
                        self.__indexes.add(new_index)
""", """                    new_index = self.__anchor_index
                    while new_index <= index:
                        self.__indexes.add(new_index)
                        new_index += 1
"""))
_r("sel-fire-helper", "C12", ("Selection.py", """            if old_index != self.__indexes:
                self.__changed_event.fire()
""", """            self.__fire_if_changed(old_index)
"""), ("Selection.py", """    def __update_anchor_index(self) -> None:""", """    def __fire_if_changed(self, old_index) -> None:
        if not (old_index == self.__indexes):
            self.__changed_event.fire()

    def __update_anchor_index(self) -> None:"""))
_r("sel-set-literal", "C12", ("Selection.py", """            self.__indexes = set()
            self.__indexes.update(indexes)
            self.__anchor_index = list(indexes)[0] if len(indexes) > 0 else None
""", """            self.__indexes = set(indexes)
            self.__anchor_index = next(iter(indexes)) if indexes else None
"""), ("Selection.py", """            self.__indexes = set()
            self.__indexes.add(index)
            self.__anchor_index = index
""", """            self.__anchor_index = index
            self.__indexes = {index}
"""))
_r("sel-ordered", "C12", ("Selection.py", """        indexes = sorted(self.__indexes)
        if len(self.__indexes) > 0 and self.__anchor_index is not None and self.__anchor_index in self.__indexes:
            indexes.remove(self.__anchor_index)
            indexes.insert(0, self.__anchor_index)
        return indexes
""", """        anchor_index = self.__anchor_index
        if anchor_index is None or anchor_index not in self.__indexes:
            return sorted(self.__indexes)
        return [anchor_index] + [index for index in sorted(self.__indexes) if index != anchor_index]
"""))
_r("sel-current", "C12", ("Selection.py", """        if len(self.__indexes) == 1:
            for index in self.__indexes:
                return index
        return None
""", """        return next(iter(self.__indexes)) if len(self.__indexes) == 1 else None
"""), ("Selection.py", "self.__anchor_index = min(self.__indexes) if self.__indexes else None", "self.__anchor_index = min(self.__indexes, default=None)"))
# ---- Event
_r("event-fire-helper", "C05", ("Event.py", """                with self.__weak_listeners_mutex:
                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
                for listener in listeners:
                    if listener:
                        listener.call(*args, **keywords)
""", """                for listener in self.__live_listeners():
                    listener.call(*args, **keywords)
"""), ("Event.py", """    def fire(self, *args""", """    def __live_listeners(self):
        with self.__weak_listeners_mutex:
            candidates = [weak_listener() for weak_listener in self.__weak_listeners]
        return [candidate for candidate in candidates if candidate]

    def fire(self, *args"""))
_r("event-fire-loop", "C05", ("Event.py", """                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
                for listener in listeners:
                    if listener:
                        listener.call(*args, **keywords)
""", """                    listeners = list()
                    for weak_listener in self.__weak_listeners:
                        listeners.append(weak_listener())
                for listener in listeners:
                    if listener is None:
                        continue
                    listener.call(*args, **keywords)
"""))
_r("event-listen-order", "C05 C06", ("Event.py", """        weak_listener = weakref.ref(listener, remove_listener)
        with self.__weak_listeners_mutex:
            self.__weak_listeners.append(weak_listener)
        if owner:
""", """        weak_listener = weakref.ref(listener, remove_listener)
        self._add_weak(weak_listener)
        if owner:
"""), ("Event.py", """    def __print_event_exception(""", """    def _add_weak(self, weak_listener):
        with self.__weak_listeners_mutex:
            self.__weak_listeners.append(weak_listener)

    def __print_event_exception("""))
# ---- Stream
_r("map-method", "C21 C22", ("Stream.py", """        def update_value(new_value):
            new_value = value_fn(new_value)
            if new_value != self.__value:
                self.__value = new_value
                self.value_stream.fire(self.__value)

        self.__listener = stream.value_stream.listen(update_value)
        update_value(stream.value)
""", """        self.__value_fn = value_fn
        self.__listener = stream.value_stream.listen(self.__update_value)
        self.__update_value(stream.value)

    def __update_value(self, input_value):
        mapped_value = self.__value_fn(input_value)
        if not (mapped_value != self.__value):
            return
        self.__value = mapped_value
        self.value_stream.fire(mapped_value)
"""))
_r("combine-lists", "C22", ("Stream.py", """        for index, stream in enumerate(self.__stream_list):
            self.__listeners[index].close()
            self.__values[index] = None
            stream.remove_ref()
""", """        for listener in self.__listeners.values():
            listener.close()
        for stream in self.__stream_list:
            stream.remove_ref()
"""))
_r("combine-split-loop", "C22", ("Stream.py", """        self.__values = [None] * len(stream_list)
        self.__value = None
        # listen for display changes
        self.__listeners = dict()  # index
        for index, stream in enumerate(self.__stream_list):
            self.__listeners[index] = stream.value_stream.listen(functools.partial(self.__handle_stream_value, index))
            self.__values[index] = stream.value
""", """        self.__value = None
        self.__values = [stream.value for stream in self.__stream_list]
        # listen for display changes
        self.__listeners = {index: stream.value_stream.listen(functools.partial(self.__handle_stream_value, index)) for index, stream in enumerate(self.__stream_list)}
"""))
_r("sample-order", "C23", ("Stream.py", """        if value_dirty:
            self.__value = self.__pending_value
            self.value_stream.fire(self.__pending_value)
""", """        if not value_dirty:
            return
        self.__value = self.__pending_value
        self.value_stream.fire(self.__value)
"""))
_r("debounce-order", "C23", ("Stream.py", """        if not self.__debounce_task:  # only trigger new task if necessary
            self.__debounce_task = self.__loop.create_task(self.debounce_delay())
""", """        if self.__debounce_task:
            return
        self.__debounce_task = self.__loop.create_task(self.debounce_delay())
"""))
_r("propstream-helper", "C21 C22", ("Stream.py", """            if self.__property_changed_listener:
                self.__property_changed_listener.close()
                self.__property_changed_listener = None
            self.__source_object = source_object
""", """            self.__close_property_listener()
            self.__source_object = source_object
"""), ("Stream.py", """        if self.__property_changed_listener:
            self.__property_changed_listener.close()
            self.__property_changed_listener = None
        self.__source_stream_listener.close()
""", """        self.__close_property_listener()
        self.__source_stream_listener.close()
"""), ("Stream.py", """    def __property_changed(self, key):""", """    def __close_property_listener(self):
        listener, self.__property_changed_listener = self.__property_changed_listener, None
        if listener:
            listener.close()

    def __property_changed(self, key):"""))
_r("concat-reorder", "C22", ("Stream.py", """            self.__out_stream = self.__concat_fn(item)
            self.__out_stream.add_ref()
            self.__out_stream_listener =""", """            out_stream = self.__concat_fn(item)
            out_stream.add_ref()
            self.__out_stream = out_stream
            self.__out_stream_listener ="""))
# ---- Binding
_r("binding-tuple", "C18", ("Binding.py", """            while len(tuple_as_list) <= self.__tuple_index:
                tuple_as_list.append(None)
""", """            missing = self.__tuple_index + 1 - len(tuple_as_list)
            if missing > 0:
                tuple_as_list.extend([None] * missing)
"""))
_r("binding-tuple-for", "C18", ("Binding.py", """            while len(tuple_as_list) <= self.__tuple_index:
                tuple_as_list.append(None)
""", """            for _ in range(len(tuple_as_list), self.__tuple_index + 1):
                tuple_as_list.append(None)
"""))
_r("binding-get", "C18", ("Binding.py", """        if self.source_getter:
            source = self.source_getter()
            if source is not None:
                return self.__converted_value(source)
        return self.fallback
""", """        source_value = self.source_getter() if self.source_getter else None
        if source_value is None:
            return self.fallback
        return self.__converted_value(source_value)
"""))
_r("binding-update-helper", "C18", ("Binding.py", """                value = getattr(source, property_name)
                if value is not None:
                    self.update_target(value)
                else:
                    self.update_target_direct(self.fallback)
""", """                self._send(getattr(self.source, self.__property_name))
"""), ("Binding.py", """    # thread safe
    def get_target_value(self):""", """    def _send(self, value):
        if value is None:
            self.update_target_direct(self.fallback)
            return
        self.update_target(value)

    # thread safe
    def get_target_value(self):"""))
# ---- Process
_r("taskset-items", "C25", ("Process.py", """        for task in task_dict.values():
            task()
""", """        for key, task in task_dict.items():
            task()
"""))
_r("taskset-swap", "C25", ("Process.py", """            task_dict = copy.copy(self.__task_dict)
            self.__task_dict.clear()
        for task in task_dict.values():
            task()
""", """            tasks = list(self.__task_dict.values())
            self.__task_dict = dict()
        for task in tasks:
            task()
"""))

# ---- small modules
_r("conv-scaled-fraction", "C19", ("Converter.py", """        return int(self.n * (value - self.value_min) / (self.value_max - self.value_min))
""", """        span = self.value_max - self.value_min
        offset = value - self.value_min
        return int(self.n * offset / span)
"""), ("Converter.py", """        return value_int * (self.value_max - self.value_min) / self.n + self.value_min
""", """        span = self.value_max - self.value_min
        return self.value_min + value_int * span / self.n
"""))
_r("conv-fuzzy-module-regex", "C19", ("Converter.py", """        if self.__fuzzy:
            _parser = re.compile(r\"\"\"        # A numeric string consists of:
                (?P<sign>[-+])?              # an optional sign, followed by either...
                (
                    (?=\\d|[\\.,]\\d)              # ...a number (with at least one digit)
                    (?P<int>\\d*)             # having a (possibly empty) integer part
                    ([\\.,](?P<frac>\\d*))?       # followed by an optional fractional part
                    (E(?P<exp>[-+]?\\d+))?    # followed by an optional exponent, or...
                )
            \"\"\", re.VERBOSE | re.IGNORECASE).match
            m = _parser(formatted_value.strip())
            if m is not None:
                decimal_point = locale.localeconv().get("decimal_point", ".")
                if decimal_point != '.':
                    return locale.atof(m.group(0).replace(".", decimal_point))
                return locale.atof(m.group(0))
            return 0.0
        else:
            decimal_point = locale.localeconv().get("decimal_point", ".")
            if decimal_point != '.':
                return locale.atof(formatted_value.replace(".", decimal_point))
            return locale.atof(formatted_value)
""", """        if not self.__fuzzy:
            return self.__parse(formatted_value)
        m = _NUMERIC.match(formatted_value.strip())
        return self.__parse(m.group(0)) if m else 0.0

    @staticmethod
    def __parse(text):
        decimal_point = locale.localeconv().get("decimal_point", ".")
        return locale.atof(text if decimal_point == '.' else text.replace(".", decimal_point))


_NUMERIC = re.compile(r"[-+]?(?=\\d|[.,]\\d)\\d*([.,]\\d*)?(E[-+]?\\d+)?", re.IGNORECASE)
"""))
_r("conv-physical-vars", "C19", ("Converter.py", """        return self.__format.format(value * self.__multiplier, self.__units)
""", """        scaled = value * self.__multiplier
        text = self.__format.format(scaled, self.__units)
        return text
"""), ("Converter.py", """        return FloatToStringConverter().convert_back(formatted_value) / self.__multiplier
""", """        parser = FloatToStringConverter()
        return parser.convert_back(formatted_value) / self.__multiplier
"""))
_r("conv-uuid-compile", "C19", ("Converter.py", """        if re.fullmatch("[0-9A-F]{8}-[0-9A-F]{4}-4[0-9A-F]{3}-[89AB][0-9A-F]{3}-[0-9A-F]{12}",
                        value.strip(), re.IGNORECASE) is not None:
            return uuid.UUID(value.strip())
        return None
""", """        text = value.strip()
        pattern = re.compile("[0-9A-F]{8}-[0-9A-F]{4}-4[0-9A-F]{3}-[89AB][0-9A-F]{3}-[0-9A-F]{12}", re.IGNORECASE)
        if not pattern.fullmatch(text):
            return None
        return uuid.UUID(text)
"""))
_r("conv-datetime-dict", "C19", ("Converter.py", """        try:
            if len(value) == 26:
                return datetime.datetime.strptime(value, "%Y-%m-%dT%H:%M:%S.%f")
            elif len(value) == 19:
                return datetime.datetime.strptime(value, "%Y-%m-%dT%H:%M:%S")
        except ValueError as e:
            pass  # fall through
        return None
""", """        formats = {26: "%Y-%m-%dT%H:%M:%S.%f", 19: "%Y-%m-%dT%H:%M:%S"}
        fmt = formats.get(len(value))
        if fmt is None:
            return None
        try:
            return datetime.datetime.strptime(value, fmt)
        except ValueError:
            return None
"""))
_r("validator-if", "C19", ("Validator.py", """        if self.__min is not None:
            value = max(self.__min, value)
        if self.__max is not None:
            value = min(self.__max, value)
        return value
""", """        if self.__min is not None and value < self.__min:
            value = self.__min
        if self.__max is not None and value > self.__max:
            value = self.__max
        return value
"""))
_r("registry-max", "C07", ("Registry.py", """    def attrgetter(attrname, default=None):
        def inside(obj):
            return getattr(obj, attrname, default)
        return inside

    sorted_components = sorted(components, key=attrgetter("priority", 50), reverse=True)

    if len(sorted_components) > 0:
        return sorted_components[0]

    return None
""", """    if not components:
        return None
    return max(components, key=lambda component: getattr(component, "priority", 50))
"""))
_r("registry-sorted-negative", "C07", ("Registry.py", """    def attrgetter(attrname, default=None):
        def inside(obj):
            return getattr(obj, attrname, default)
        return inside

    sorted_components = sorted(components, key=attrgetter("priority", 50), reverse=True)

    if len(sorted_components) > 0:
        return sorted_components[0]

    return None
""", """    best, best_priority = None, None
    for component in components:
        priority = getattr(component, "priority", 50)
        if best_priority is None or priority > best_priority:
            best, best_priority = component, priority
    return best
"""))
_r("registry-register-one-loop", "C07", ("Registry.py", """        for component_type in component_types:
            component_set = self.__components_by_type.setdefault(component_type, set())
            component_set.add(component)
        self.__component_types.setdefault(component, set()).update(component_types)
""", """        types = self.__component_types.setdefault(component, set())
        for component_type in component_types:
            self.__components_by_type.setdefault(component_type, set()).add(component)
            types.add(component_type)
"""))
_r("registry-unregister-discard", "C07", ("Registry.py", """        for component_type in component_types:
            self.__components_by_type.get(component_type).remove(component)
        self.__component_types[component].difference_update(component_types)
        if len(self.__component_types[component]) == 0:
            self.__component_types.pop(component)
""", """        remaining = self.__component_types[component]
        for component_type in component_types:
            self.__components_by_type[component_type].discard(component)
            remaining.discard(component_type)
        if not remaining:
            del self.__component_types[component]
"""))
_r("refcount-helper", "C06", ("ReferenceCounting.py", """            assert self.__ref_count > 0, 'Reference counted object has no references'
            self.__ref_count -= 1
            if self.__active and self.__ref_count == 0 and check:
                self.__active = False
                self.about_to_delete()
""", """            if self.__ref_count <= 0:
                raise AssertionError('Reference counted object has no references')
            self.__ref_count = self.__ref_count - 1
            if check and not self.__ref_count:
                self.__release()

    def __release(self):
        if self.__active:
            self.__active = False
            self.about_to_delete()
"""))
_r("refcount-contextlib", "C06", ("ReferenceCounting.py", """        class RefContextManager(object):
            def __init__(self, item):
                self.__item = item
            def __enter__(self):
                self.__item.add_ref()
                return self
            def __exit__(self, type, value, traceback):
                self.__item.remove_ref()
        return RefContextManager(self)
""", """        item = self
        class RefContextManager:
            def __enter__(self):
                item.add_ref()
                return self
            def __exit__(self, *args):
                item.remove_ref()
        return RefContextManager()
"""))
_r("promise-early", "C24", ("Promise.py", """        with self.__lock:
            if callable(self.__fn):
                self.__value = self.__fn()
                self.__fn = None
            return self.__value
""", """        with self.__lock:
            fn = self.__fn
            if fn is not None:
                value = fn()
                self.__value = value
                self.__fn = None
            return self.__value
"""))
_r("promise-acquire", "C24", ("Promise.py", """        with self.__lock:
            if callable(self.__fn):
                self.__value = self.__fn()
                self.__fn = None
            return self.__value
""", """        with self.__lock:
            if self.__fn:
                self.__evaluate()
            return self.__value

    def __evaluate(self) -> None:
        assert self.__fn
        self.__value = self.__fn()
        self.__fn = None
"""))
# ---- Geometry
_r("geo-intersects-expr", "C08 C09", ("Geometry.py", """    def intersects_rect(self, rect):
        \"\"\" Return whether the rectangle intersects this rectangle. \"\"\"
        # if one rectangle is on left side of the other
        if self.left > rect.right or rect.left > self.right:
            return False
        # if one rectangle is above the other
        if self.bottom < rect.top or rect.bottom < self.top:
            return False
        return True

    def translated(self, point):
        \"\"\" Return the rectangle translated by the point or size. \"\"\"
        return IntRect(""", """    def intersects_rect(self, rect):
        \"\"\" Return whether the rectangle intersects this rectangle. \"\"\"
        horizontally = self.left <= rect.right and rect.left <= self.right
        vertically = self.top <= rect.bottom and rect.top <= self.bottom
        return horizontally and vertically

    def translated(self, point):
        \"\"\" Return the rectangle translated by the point or size. \"\"\"
        return IntRect("""))
_r("geo-contains-chain", "C08", ("Geometry.py", """        point = IntPoint.make(point)
        return point.x >= self.left and point.x < self.right and point.y >= self.top and point.y < self.bottom
""", """        point = IntPoint.make(point)
        return self.left <= point.x < self.right and self.top <= point.y < self.bottom
"""))
_r("geo-intersect-max-inline", "C08", ("Geometry.py", """    def intersect(self, rect: IntRect) -> IntRect:
        top = max(self.top, rect.top)
        left = max(self.left, rect.left)
        bottom = min(self.bottom, rect.bottom)
        right = min(self.right, rect.right)
        return IntRect.from_tlbr(top, left, bottom, right)
""", """    def intersect(self, rect: IntRect) -> IntRect:
        top = self.top if self.top >= rect.top else rect.top
        left = rect.left if self.left < rect.left else self.left
        return IntRect.from_tlbr(top, left, min(rect.bottom, self.bottom), min(rect.right, self.right))
"""))
_r("geo-eq-tuple", "C08", ("Geometry.py", """        if other is not None:
            other = IntRect.make(other)
            return self.__origin != other.origin or self.__size != other.size
        return True
""", """        return not self == other
"""))
_r("geo-inset-tlbr", "C08", ("Geometry.py", """        dy = dy if dy is not None else dx
        origin = IntPoint(y=self.top + dy, x=self.left + dx)
        size = IntSize(height=self.height - dy * 2, width=self.width - dx * 2)
        return IntRect(origin, size)
""", """        if dy is None:
            dy = dx
        return IntRect(IntPoint(y=self.top + dy, x=self.left + dx), IntSize(height=self.height - 2 * dy, width=self.width - 2 * dx))
"""))
_r("geo-map-factor", "C09", ("Geometry.py", """    return FloatPoint(y=((p.y - f.top) / f.height) * t.height + t.top,
                      x=((p.x - f.left) / f.width) * t.width + t.left)
""", """    relative_y = (p.y - f.top) / f.height
    relative_x = (p.x - f.left) / f.width
    return FloatPoint(y=t.top + relative_y * t.height, x=t.left + relative_x * t.width)
"""))
_r("geo-map-rect-corners", "C09", ("Geometry.py", """    return FloatRect.from_center_and_size(map_point(r.center, f, t),
                                          map_size(r.size, f, t))
""", """    size = map_size(r.size, f, t)
    center = map_point(r.center, f, t)
    return FloatRect.from_center_and_size(center, size)
"""))
_r("geo-pretty-table", "C10", ("Geometry.py", """    if rounding:
        if val_norm < 1.5:
            val_norm = 1.0
        elif val_norm < 3.0:
            val_norm = 2.0
        elif val_norm < 7.0:
            val_norm = 5.0
        else:
            val_norm = 10.0
    else:
        if val_norm <= 1.0:
            val_norm = 1.0
        elif val_norm <= 2.0:
            val_norm = 2.0
        elif val_norm <= 5.0:
            val_norm = 5.0
        else:
            val_norm = 10.0
    return""", """    nice = 10.0
    if rounding:
        for limit, candidate in ((1.5, 1.0), (3.0, 2.0), (7.0, 5.0)):
            if val_norm < limit:
                nice = candidate
                break
    else:
        for candidate in (1.0, 2.0, 5.0):
            if val_norm <= candidate:
                nice = candidate
                break
    val_norm = nice
    return"""))
_r("geo-ticks-comprehension", "C10", ("Geometry.py", """    tick_values = []

    def arange(start, stop, step):
        return [start + x * step for x in range(math.ceil((stop - start) / step))]

    for x in arange(graph_minimum, graph_maximum + 0.5 * division, division):
        tick_values.append(x)
""", """    tick_count = math.ceil((graph_maximum + 0.5 * division - graph_minimum) / division)
    tick_values = [graph_minimum + i * division for i in range(tick_count)]
"""))
_r("geo-swap", "C10", ("Geometry.py", """    value_low, value_high = min(value_low, value_high), max(value_low, value_high)
""", """    if value_low > value_high:
        value_low, value_high = value_high, value_low
"""))
_r("geo-fit-branches", "C09", ("Geometry.py", """    if rect.aspect_ratio > aspect_ratio:
        # height will fill entire frame
        new_size = FloatSize(height=rect.height, width=rect.height * aspect_ratio)
        new_origin = FloatPoint(y=rect.top, x=rect.left + 0.5 * (rect.width - new_size.width))
        return FloatRect(origin=new_origin, size=new_size)
    else:
        new_size = FloatSize(height=rect.width / aspect_ratio, width=rect.width)
        new_origin = FloatPoint(y=rect.top + 0.5*(rect.height - new_size.height), x=rect.left)
        return FloatRect(origin=new_origin, size=new_size)
""", """    height, width = rect.height, rect.width
    if rect.aspect_ratio > aspect_ratio:
        width = rect.height * aspect_ratio
    else:
        height = rect.width / aspect_ratio
    new_origin = FloatPoint(y=rect.top + 0.5 * (rect.height - height), x=rect.left + 0.5 * (rect.width - width))
    return FloatRect(origin=new_origin, size=FloatSize(height=height, width=width))
"""))
# ---- Persistence
_r("pers-write-items", "C26 C27", ("Persistence.py", """        for key in self.__properties.keys():
            property = self.__properties[key]
            property.write_to_dict(properties)
        for key in self.__items.keys():
            item = self.__items[key].value
            if item:
                properties[key] = item.write_to_dict()
        for key in self.__relationships.keys():
            storage_key = self.__relationships[key].storage_key
            items_list = properties.setdefault(storage_key, list())
            for item in self.__relationships[key].values:
                items_list.append(item.write_to_dict())
        return properties
""", """        for property in self.__properties.values():
            property.write_to_dict(properties)
        for key, persistent_item in self.__items.items():
            if persistent_item.value:
                properties[key] = persistent_item.value.write_to_dict()
        for relationship in self.__relationships.values():
            properties.setdefault(relationship.storage_key, list()).extend([item.write_to_dict() for item in relationship.values])
        return properties
"""))
_r("pers-read-helper", "C26 C27", ("Persistence.py", """            if item_dict:
                factory = self.__items[key].factory
                # the object has not been constructed yet, but we needs its
                # type or id to construct it. so we need to look it up by key/index/name.
                # to minimize the interface to the factory methods, just pass a closure
                # which looks up by name.
                def lookup_id(name, default=None):
                    return item_dict.get(name, default)
                item = factory(lookup_id)
                if item is None:
                    logging.debug("Unable to read %s", key)
                assert item is not None
                # read the item from the dict
                item.begin_reading()
                item.read_from_dict(item_dict)
                self.__set_item(key, item)
        for key in self.__relationships.keys():
            storage_key = self.__relationships[key].storage_key
            for item_dict in properties.get(storage_key, list()):
                factory = self.__relationships[key].factory
                # the object has not been constructed yet, but we needs its
                # type or id to construct it. so we need to look it up by key/index/name.
                # to minimize the interface to the factory methods, just pass a closure
                # which looks up by name.
                def lookup_id(name, default=None):
                    return item_dict.get(name, default)
                item = factory(lookup_id)
                if item is None:
                    logging.debug("Unable to read %s", key)
                assert item is not None
                # read the item from the dict
                item.begin_reading()
                item.read_from_dict(item_dict)
                # insert it into the relationship dict
                self.__insert_item(key, len(self.__relationships[key].values), item)
""", """            if item_dict:
                self.__set_item(key, self.__read_item(self.__items[key].factory, key, item_dict))
        for key, relationship in self.__relationships.items():
            for item_dict in properties.get(relationship.storage_key, list()):
                item = self.__read_item(relationship.factory, key, item_dict)
                self.__insert_item(key, len(relationship.values), item)

    def __read_item(self, factory, key, item_dict):
        def lookup_id(name, default=None):
            return item_dict.get(name, default)
        item = factory(lookup_id)
        if item is None:
            logging.debug("Unable to read %s", key)
        assert item is not None
        item.begin_reading()
        item.read_from_dict(item_dict)
        return item
"""))
_r("pers-finish-values", "C27", ("Persistence.py", """        for key in self.__items.keys():
            item = self.__items[key].value
            if item:
                item.finish_reading()
        for key in self.__relationships.keys():
            for item in self.__relationships[key].values:
                item.finish_reading()
        self._is_reading = False
""", """        children = [persistent_item.value for persistent_item in self.__items.values() if persistent_item.value]
        for relationship in self.__relationships.values():
            children.extend(relationship.values)
        for child in children:
            child.finish_reading()
        self._is_reading = False
"""))
_r("pers-setattr-early", "C26", ("Persistence.py", """        if name.startswith("_PersistentObject__"):
            super(PersistentObject, self).__setattr__(name, value)
        # Otherwise check for defined properties.
        else:
            property = self.__properties.get(name)
            # if the property is hidden, fall through and give regular style property a chance to handle it
            if property and not property.hidden:
                # if the property is not hidden and it is read only, throw an exception
                if not property.read_only:
                    property.set_value(value)
                    self.__update_modified(datetime.datetime.utcnow())
                    self._update_persistent_object_context_property(name)
                else:
                    raise AttributeError()
            else:
                super(PersistentObject, self).__setattr__(name, value)
""", """        if name.startswith("_PersistentObject__"):
            super().__setattr__(name, value)
            return
        property = self.__properties.get(name)
        if property is None or property.hidden:
            super().__setattr__(name, value)
            return
        if property.read_only:
            raise AttributeError()
        self._set_persistent_property_value(name, value)
"""))
_r("pers-modified-loop", "C26 C27", ("Persistence.py", """        self.__modified_count += 1
        self.modified_state += 1
        self.__modified = modified
        parent = self.persistent_object_parent.parent if self.persistent_object_parent else None
        if parent:
            parent.__update_modified(modified)
""", """        target = self
        while target:
            target.__modified_count += 1
            target.modified_state += 1
            target.__modified = modified
            target_parent = target.persistent_object_parent
            target = target_parent.parent if target_parent else None
"""))
_r("pers-remove-pop", "C27", ("Persistence.py", """        item_index = relationship.values.index(item)
        relationship.values.remove(item)
""", """        item_index = relationship.values.index(item)
        del relationship.values[item_index]
"""))
_r("pers-insert-link-helper", "C27", ("Persistence.py", """        item.persistent_object_parent = PersistentObjectParent(self, relationship_name=name)
        # the persistent_object_parent and relationship need to be established before
        # calling item_inserted.
        if self.persistent_object_context:
            self.persistent_object_context.item_inserted(self, name, before_index, item)  # this will also update item's persistent_object_context
        if relationship.insert:
            relationship.insert(name, before_index, item)
""", """        item.persistent_object_parent = PersistentObjectParent(self, relationship_name=name)
        context = self.persistent_object_context
        if context:
            context.item_inserted(self, name, before_index, item)
        insert_fn = relationship.insert
        if insert_fn:
            insert_fn(name, before_index, item)
"""))
_r("pers-update-items", "C26", ("Persistence.py", """        if self.persistent_object_context:
            properties = dict()
            property.write_to_dict(properties)
            if properties:
                for property_key in properties:
                    self.persistent_object_context.property_changed(self, property_key, properties[property_key])
            else:
                self.persistent_object_context.clear_property(self, property.key)
""", """        context = self.persistent_object_context
        if not context:
            return
        properties = dict()
        property.write_to_dict(properties)
        if not properties:
            context.clear_property(self, property.key)
        for property_key, property_value in properties.items():
            context.property_changed(self, property_key, property_value)
"""))
_r("pers-prop-write", "C26", ("Persistence.py", """        if self.writer:
            self.writer(self, properties, self.value)
        else:
            if self.make:
                value = self.value
                if value is not None:
                    value_dict = value.write_dict()
                    properties[self.key] = value_dict
                else:
                    properties.pop(self.key, None)  # remove key
            else:
                value = self.json_value
                if value is not None:
                    properties[self.key] = value
                else:
                    properties.pop(self.key, None)  # remove key
""", """        if self.writer:
            self.writer(self, properties, self.value)
            return
        if self.make:
            made = self.value
            value = made.write_dict() if made is not None else None
        else:
            value = self.json_value
        if value is None:
            properties.pop(self.key, None)
        else:
            properties[self.key] = value
"""))
_r("pers-ctx-names", "C28", ("Persistence.py", """        object_uuid = object.uuid
        weak_object = weakref.ref(object)
        self.__objects[object_uuid] = weak_object
        for registered, unregistered in list(self.__subscriptions.get(object_uuid, list())):
            if registered:
                registered(object)
        self.registration_event.fire(object, None)
""", """        self.__objects[object.uuid] = weakref.ref(object)
        subscriptions = list(self.__subscriptions.get(object.uuid, ()))
        for subscription in subscriptions:
            if subscription[0]:
                subscription[0](object)
        self.registration_event.fire(object, None)
"""))
_r("pers-ctx-get", "C28", ("Persistence.py", """        weak_object = self.__objects.get(object_uuid)
        return weak_object and weak_object()
""", """        if object_uuid not in self.__objects:
            return None
        return self.__objects[object_uuid]()
"""))
_r("pers-storage-loop", "C28", ("Persistence.py", """        weak_object = weakref.ref(object)
        if weak_object in self.__persistent_storages:
            return self.__persistent_storages[weak_object]
        persistent_object_parent = object.persistent_object_parent
        if persistent_object_parent:
            return self._get_persistent_storage_for_object(persistent_object_parent.parent)
        return None
""", """        persistent_storage = self.__persistent_storages.get(weakref.ref(object))
        if persistent_storage is not None:
            return persistent_storage
        link = object.persistent_object_parent
        return self._get_persistent_storage_for_object(link.parent) if link else None
"""))
# ---- StructuredModel
_r("struct-build-helper", "C29", ("StructuredModel.py", """    if schema in ("string", "boolean", "int", "float", "double"):
        return FieldPropertyModel(value if value is not None else default_value)
    type = typing.cast(dict, schema).get("type")
    if type in ("string", "boolean", "int", "float", "double"):
        return FieldPropertyModel(value if value is not None else default_value)
    elif type == "record":
""", """    type = schema if isinstance(schema, str) else schema.get("type")
    if type in ("string", "boolean", "int", "float", "double"):
        return FieldPropertyModel(default_value if value is None else value)
    elif type == "record":
"""))
_r("struct-array-comprehension", "C29", ("StructuredModel.py", """        l = list()
        for item in self.items:
            l.append(item.to_dict_value() if isinstance(item, (RecordModel, ArrayModel)) else item)
        return l
""", """        return [item.to_dict_value() if isinstance(item, (RecordModel, ArrayModel)) else item for item in self.items]
"""))
_r("struct-array-init", "C29", ("StructuredModel.py", """        if values is not None:
            items : typing.Optional[typing.List] = list()
            assert isinstance(schema, dict)
            assert isinstance(items, list)
            item_schema = schema["items"]
            for value in values:
                items.append(build_value(item_schema, value=value))
        else:
            items = None
""", """        items = None
        if values is not None:
            items = [build_value(schema["items"], value=value) for value in values]
"""))
_r("struct-trampoline-helper", "C29", ("StructuredModel.py", """        for item in self.items:
            trampoline = None
            if isinstance(item, (RecordModel, ArrayModel)):
                trampoline = item.model_changed_event.listen(self.model_changed_event.fire)
            self.__model_changed_listeners.append(trampoline)
""", """        for item in self.items:
            self.__model_changed_listeners.append(self.__listen(item))
"""), ("StructuredModel.py", """        trampoline = None
        if isinstance(value, (RecordModel, ArrayModel)):
            trampoline = value.model_changed_event.listen(self.model_changed_event.fire)
        self.__model_changed_listeners.insert(before_index, trampoline)
        self.model_changed_event.fire()
""", """        self.__model_changed_listeners.insert(before_index, self.__listen(value))
        self.model_changed_event.fire()

    def __listen(self, item):
        if isinstance(item, (RecordModel, ArrayModel)):
            return item.model_changed_event.listen(self.model_changed_event.fire)
        return None
"""))
_r("struct-record-dict", "C29", ("StructuredModel.py", """        for k, v in self.__field_models.items():
            if k in values:
                self.__field_models[k].from_dict_value(values[k])
""", """        for field_name, field_model in self.__field_models.items():
            if field_name not in values:
                continue
            field_model.from_dict_value(values[field_name])
"""))
_r("struct-record-close", "C29", ("StructuredModel.py", """        for field_name in self.__field_models.keys():
            self.__field_model_property_changed_listeners[field_name].close()
            del self.__field_model_property_changed_listeners[field_name]
            self.__array_item_inserted_listeners[field_name].close()
            del self.__array_item_inserted_listeners[field_name]
            self.__array_item_removed_listeners[field_name].close()
            del self.__array_item_removed_listeners[field_name]
            self.__field_model_changed_listeners[field_name].close()
            del self.__field_model_changed_listeners[field_name]
""", """        for field_name in self.__field_models:
            for listeners in (self.__field_model_property_changed_listeners, self.__array_item_inserted_listeners,
                              self.__array_item_removed_listeners, self.__field_model_changed_listeners):
                listeners.pop(field_name).close()
"""))
_r("struct-from-dict-while", "C29", ("StructuredModel.py", """        while len(values) < len(self.items):
            self.remove_item(len(self.items) - 1)
""", """        for index in range(len(self.items) - 1, len(values) - 1, -1):
            self.remove_item(index)
"""))
_r("struct-getattr", "C29", ("StructuredModel.py", """        if name in self.__field_models:
            return self.__field_models[name].field_value
        if name.endswith("_model") and name[:-6] in self.__field_models:
            return self.__field_models[name[:-6]]
        raise AttributeError()
""", """        field_models = self.__field_models
        field_model = field_models.get(name)
        if field_model is not None:
            return field_model.field_value
        if name.endswith("_model"):
            field_model = field_models.get(name[:-len("_model")])
            if field_model is not None:
                return field_model
        raise AttributeError()
"""))
