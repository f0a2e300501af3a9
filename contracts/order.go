package cypher

// Contracts on the builder of ORDER BY, SKIP and LIMIT.

//@ fileprops C17
//@ hide OrderCreate

// specKeepErr: the first error of the requested items and numbers is kept.
func specKeepErr(o *OrderBuilder, err error) {
	if o.err == nil {
		o.err = err
	}
}

// specPending: the items requested so far, the one whose direction can still be given last.
func specPending(o OrderBuilder) []SortItem {
	items := append(make([]SortItem, 0), o.sortItemList...)
	if o.lastSortItem.isNotNil() {
		items = append(items, o.lastSortItem)
	}
	return items
}

// @ spec OrderBuilder.addError
func or_addError(o *OrderBuilder, err error) {
	specKeepErr(o, err)
}

// @ spec OrderBuilder.Skip
func or_Skip(o *OrderBuilder, number int) {
	o.skip = SkipCreate(number)
	specKeepErr(o, o.skip.err)
}

// @ spec OrderBuilder.Limit
func or_Limit(o *OrderBuilder, number int) {
	o.limit = LimitCreate(number)
	specKeepErr(o, o.limit.err)
}

// @ spec OrderBuilder.reset
func or_reset(o *OrderBuilder) {
	o.sortItemList = nil
	o.lastSortItem = SortItem{}
	o.skip = Skip{}
	o.limit = Limit{}
	o.err = nil
}

// @ ensures OrderBuilder.BuildOrder
func or_BuildOrder(o *OrderBuilder, r Order) bool {
	items := specPending(*o)
	if len(items) == 0 {
		return !r.isNotNil() && r.err == nil
	}
	return vcSame(r, OrderCreate(items))
}

// @ spec OrderBuilder.OrderByExpression
func or_OrderByExpression(o *OrderBuilder, expression Expression) {
	o.sortItemList = specPending(*o)
	o.lastSortItem = Sort(expression)
	specKeepErr(o, o.lastSortItem.err)
}

// @ spec OrderBuilder.And
func or_And(o *OrderBuilder, expression Expression) {
	o.sortItemList = specPending(*o)
	o.lastSortItem = Sort(expression)
	specKeepErr(o, o.lastSortItem.err)
}

// @ spec OrderBuilder.Descending
func or_Descending(o *OrderBuilder) {
	item := o.lastSortItem.Descending()
	o.lastSortItem = SortItem{}
	o.sortItemList = append(append(make([]SortItem, 0), o.sortItemList...), item)
	specKeepErr(o, item.err)
}

// @ spec OrderBuilder.Ascending
func or_Ascending(o *OrderBuilder) {
	item := o.lastSortItem.Ascending()
	o.lastSortItem = SortItem{}
	o.sortItemList = append(append(make([]SortItem, 0), o.sortItemList...), item)
	specKeepErr(o, item.err)
}

// specFirstErr: the error that was there, or else the first one of the first n items.
// @ rec
func specFirstErr(err error, items []SortItem, n int) error {
	if n <= 0 {
		return err
	}
	e := specFirstErr(err, items, n-1)
	if e != nil {
		return e
	}
	return items[n-1].err
}

// @ spec OrderBuilder.addSortItem
func or_addSortItem(o *OrderBuilder, items ...SortItem) {
	o.err = specFirstErr(o.err, items, len(items))
	o.sortItemList = append(specPending(*o), items...)
	if o.lastSortItem.isNotNil() {
		o.lastSortItem = SortItem{}
	}
}

// @ spec OrderBuilder.OrderBySortItem
func or_OrderBySortItem(o *OrderBuilder, items ...SortItem) {
	o.err = specFirstErr(o.err, items, len(items))
	o.sortItemList = append(specPending(*o), items...)
	if o.lastSortItem.isNotNil() {
		o.lastSortItem = SortItem{}
	}
}
