package it.unimi.dsi.fastutil.ints;

import java.util.*;

public interface IntIterable extends Iterable<Integer> {
    @Override IntIterator iterator();
}
