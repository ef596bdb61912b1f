package it.unimi.dsi.fastutil.ints;

import java.util.*;

public class IntArrayList extends AbstractList<Integer> implements IntList, RandomAccess {
    private final ArrayList<Integer> a;

    public IntArrayList() { a = new ArrayList<>(); }
    public IntArrayList(int capacity) { a = new ArrayList<>(capacity); }
    public IntArrayList(int[] v) { this(); for (int x : v) a.add(x); }
    public IntArrayList(Collection<? extends Integer> c) { a = new ArrayList<>(c); }
    public IntArrayList(Iterator<? extends Integer> i) { this(); while (i.hasNext()) a.add(i.next()); }
    public static IntArrayList wrap(int[] v) { return new IntArrayList(v); }

    @Override public boolean add(int k) { return a.add(k); }
    @Override public void add(int i, Integer k) { a.add(i, k); }
    @Override public boolean contains(int k) { return a.contains(k); }
    @Override public boolean rem(int k) { return a.remove((Object) Integer.valueOf(k)); }
    @Override public int size() { return a.size(); }
    @Override public Integer get(int k) { return a.get(k); }
    @Override public int getInt(int k) { return a.get(k); }
    @Override public int set(int k, int v) { return a.set(k, v); }
    @Override public Integer set(int k, Integer v) { return a.set(k, v); }
    @Override public Integer remove(int k) { return a.remove(k); }
    public int removeInt(int k) { return a.remove(k); }
    @Override public void clear() { a.clear(); }
    @Override public IntListIterator iterator() { return listIterator(); }
    @Override public IntListIterator listIterator() { return listIterator(0); }
    public void trim() { a.trimToSize(); }

    @Override public IntListIterator listIterator(int k) {
        ListIterator<Integer> i = a.listIterator(k);
        return new IntListIterator() {
            @Override public boolean hasNext() { return i.hasNext(); }
            @Override public Integer next() { return i.next(); }
            @Override public boolean hasPrevious() { return i.hasPrevious(); }
            @Override public Integer previous() { return i.previous(); }
            @Override public int nextIndex() { return i.nextIndex(); }
            @Override public int previousIndex() { return i.previousIndex(); }
            @Override public void remove() { i.remove(); }
            @Override public void set(Integer v) { i.set(v); }
            @Override public void add(Integer v) { i.add(v); }
        };
    }
}
