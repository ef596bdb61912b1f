package it.unimi.dsi.fastutil.longs;

import java.util.*;

public class LongArrayList extends AbstractList<Long> implements LongList, RandomAccess {
    private final ArrayList<Long> a;

    public LongArrayList() { a = new ArrayList<>(); }
    public LongArrayList(int capacity) { a = new ArrayList<>(capacity); }
    public LongArrayList(long[] v) { this(); for (long x : v) a.add(x); }
    public LongArrayList(Collection<? extends Long> c) { a = new ArrayList<>(c); }
    public LongArrayList(Iterator<? extends Long> i) { this(); while (i.hasNext()) a.add(i.next()); }
    public static LongArrayList wrap(long[] v) { return new LongArrayList(v); }

    @Override public boolean add(long k) { return a.add(k); }
    @Override public void add(int i, Long k) { a.add(i, k); }
    @Override public boolean contains(long k) { return a.contains(k); }
    @Override public boolean rem(long k) { return a.remove((Object) Long.valueOf(k)); }
    @Override public int size() { return a.size(); }
    @Override public Long get(int k) { return a.get(k); }
    @Override public long getLong(int k) { return a.get(k); }
    @Override public long set(int k, long v) { return a.set(k, v); }
    @Override public Long set(int k, Long v) { return a.set(k, v); }
    @Override public Long remove(int k) { return a.remove(k); }
    public long removeLong(int k) { return a.remove(k); }
    @Override public void clear() { a.clear(); }
    @Override public LongListIterator iterator() { return listIterator(); }
    @Override public LongListIterator listIterator() { return listIterator(0); }
    public void trim() { a.trimToSize(); }

    @Override public LongListIterator listIterator(int k) {
        ListIterator<Long> i = a.listIterator(k);
        return new LongListIterator() {
            @Override public boolean hasNext() { return i.hasNext(); }
            @Override public Long next() { return i.next(); }
            @Override public boolean hasPrevious() { return i.hasPrevious(); }
            @Override public Long previous() { return i.previous(); }
            @Override public int nextIndex() { return i.nextIndex(); }
            @Override public int previousIndex() { return i.previousIndex(); }
            @Override public void remove() { i.remove(); }
            @Override public void set(Long v) { i.set(v); }
            @Override public void add(Long v) { i.add(v); }
        };
    }
}
