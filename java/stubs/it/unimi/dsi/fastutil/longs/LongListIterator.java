package it.unimi.dsi.fastutil.longs;

import java.util.*;

public interface LongListIterator extends ListIterator<Long>, LongBidirectionalIterator {
    @Override boolean hasPrevious();
    @Override Long previous();
    @Override boolean hasNext();
    @Override Long next();
    @Override void remove();
}
