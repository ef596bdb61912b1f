package it.unimi.dsi.fastutil.longs;

import java.util.*;

public interface LongBidirectionalIterator extends LongIterator {
    boolean hasPrevious();
    Long previous();

    default long previousLong() { return previous(); }
}
