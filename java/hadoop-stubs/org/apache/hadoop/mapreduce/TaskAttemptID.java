package org.apache.hadoop.mapreduce;

public class TaskAttemptID {
    private final int id;
    public TaskAttemptID() { this(0); }
    public TaskAttemptID(int id) { this.id = id; }
    public int getId() { return id; }
    @Override public String toString() { return String.format("attempt_1_0001_m_%06d_0", id); }
}
