package it.unimi.dsi.fastutil.ints;

import java.util.*;

public class IntAVLTreeSet extends AbstractIntSet_ implements IntSortedSet {
    private final TreeSet<Integer> s;

    public IntAVLTreeSet() { s = new TreeSet<>(); }
    public IntAVLTreeSet(Collection<? extends Integer> c) { s = new TreeSet<>(c); }
    public IntAVLTreeSet(int[] v) { this(); for (int x : v) s.add(x); }
    private IntAVLTreeSet(SortedSet<Integer> v) { s = new TreeSet<>(v); }

    @Override Set<Integer> base() { return s; }
    @Override public int firstInt() { return s.first(); }
    @Override public int lastInt() { return s.last(); }
    @Override public Integer first() { return s.first(); }
    @Override public Integer last() { return s.last(); }
    @Override public Comparator<? super Integer> comparator() { return null; }
    @Override public IntSortedSet subSet(Integer a, Integer b) { return new IntAVLTreeSet(s.subSet(a, b)); }
    @Override public IntSortedSet headSet(Integer b) { return new IntAVLTreeSet(s.headSet(b)); }
    @Override public IntSortedSet tailSet(Integer a) { return new IntAVLTreeSet(s.tailSet(a)); }
    @Override public Spliterator<Integer> spliterator() { return s.spliterator(); }

    @Override public IntBidirectionalIterator iterator() {
        return new IntBidirectionalIterator() {
            private Integer next = s.isEmpty() ? null : s.first(), previous = null;

            @Override public boolean hasNext() { return next != null; }
            @Override public boolean hasPrevious() { return previous != null; }
            @Override public Integer next() {
                if (next == null) throw new NoSuchElementException();
                previous = next;
                next = s.higher(next);
                return previous;
            }
            @Override public Integer previous() {
                if (previous == null) throw new NoSuchElementException();
                next = previous;
                previous = s.lower(previous);
                return next;
            }
            @Override public void remove() { throw new UnsupportedOperationException(); }
        };
    }
}
