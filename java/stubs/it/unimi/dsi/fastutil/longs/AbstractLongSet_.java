package it.unimi.dsi.fastutil.longs;

import java.util.*;

abstract class AbstractLongSet_ extends AbstractSet<Long> implements LongSet {
    abstract Set<Long> base();

    @Override public int size() { return base().size(); }
    @Override public boolean add(Long k) { return base().add(k); }
    @Override public boolean add(long k) { return base().add(k); }
    @Override public boolean contains(Object k) { return base().contains(k); }
    @Override public boolean contains(long k) { return base().contains(k); }
    @Override public boolean remove(Object k) { return base().remove(k); }
    @Override public boolean remove(long k) { return base().remove(k); }
    @Override public boolean rem(long k) { return base().remove(k); }
    @Override public void clear() { base().clear(); }

    @Override public LongIterator iterator() {
        Iterator<Long> i = base().iterator();
        return new LongIterator() {
            @Override public boolean hasNext() { return i.hasNext(); }
            @Override public Long next() { return i.next(); }
            @Override public void remove() { i.remove(); }
        };
    }
}
