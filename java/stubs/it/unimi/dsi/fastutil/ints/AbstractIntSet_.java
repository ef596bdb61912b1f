package it.unimi.dsi.fastutil.ints;

import java.util.*;

abstract class AbstractIntSet_ extends AbstractSet<Integer> implements IntSet {
    abstract Set<Integer> base();

    @Override public int size() { return base().size(); }
    @Override public boolean add(Integer k) { return base().add(k); }
    @Override public boolean add(int k) { return base().add(k); }
    @Override public boolean contains(Object k) { return base().contains(k); }
    @Override public boolean contains(int k) { return base().contains(k); }
    @Override public boolean remove(Object k) { return base().remove(k); }
    @Override public boolean remove(int k) { return base().remove(k); }
    @Override public boolean rem(int k) { return base().remove(k); }
    @Override public void clear() { base().clear(); }

    @Override public IntIterator iterator() {
        Iterator<Integer> i = base().iterator();
        return new IntIterator() {
            @Override public boolean hasNext() { return i.hasNext(); }
            @Override public Integer next() { return i.next(); }
            @Override public void remove() { i.remove(); }
        };
    }
}
