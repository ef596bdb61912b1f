package it.unimi.dsi.fastutil.longs;

import java.util.*;

public class LongAVLTreeSet extends AbstractLongSet_ implements LongSortedSet {
    private final TreeSet<Long> s;

    public LongAVLTreeSet() { s = new TreeSet<>(); }
    public LongAVLTreeSet(Collection<? extends Long> c) { s = new TreeSet<>(c); }
    public LongAVLTreeSet(long[] v) { this(); for (long x : v) s.add(x); }
    private LongAVLTreeSet(SortedSet<Long> v) { s = new TreeSet<>(v); }

    @Override Set<Long> base() { return s; }
    @Override public long firstLong() { return s.first(); }
    @Override public long lastLong() { return s.last(); }
    @Override public Long first() { return s.first(); }
    @Override public Long last() { return s.last(); }
    @Override public Comparator<? super Long> comparator() { return null; }
    @Override public LongSortedSet subSet(Long a, Long b) { return new LongAVLTreeSet(s.subSet(a, b)); }
    @Override public LongSortedSet headSet(Long b) { return new LongAVLTreeSet(s.headSet(b)); }
    @Override public LongSortedSet tailSet(Long a) { return new LongAVLTreeSet(s.tailSet(a)); }
    @Override public Spliterator<Long> spliterator() { return s.spliterator(); }

    @Override public LongBidirectionalIterator iterator() {
        return new LongBidirectionalIterator() {
            private Long next = s.isEmpty() ? null : s.first(), previous = null;

            @Override public boolean hasNext() { return next != null; }
            @Override public boolean hasPrevious() { return previous != null; }
            @Override public Long next() {
                if (next == null) throw new NoSuchElementException();
                previous = next;
                next = s.higher(next);
                return previous;
            }
            @Override public Long previous() {
                if (previous == null) throw new NoSuchElementException();
                next = previous;
                previous = s.lower(previous);
                return next;
            }
            @Override public void remove() { throw new UnsupportedOperationException(); }
        };
    }
}
