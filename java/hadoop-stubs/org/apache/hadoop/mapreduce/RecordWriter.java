package org.apache.hadoop.mapreduce;

import java.io.IOException;

public abstract class RecordWriter<K, V> {
    public abstract void write(K key, V value) throws IOException, InterruptedException;
    public abstract void close(TaskAttemptContext context) throws IOException, InterruptedException;
}
