package it.unimi.dsi.fastutil.longs;

import java.util.*;

public interface LongIterable extends Iterable<Long> {
    @Override LongIterator iterator();
}
