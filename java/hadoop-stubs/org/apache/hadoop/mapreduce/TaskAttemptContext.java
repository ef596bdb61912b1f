package org.apache.hadoop.mapreduce;

public interface TaskAttemptContext extends JobContext {
    TaskAttemptID getTaskAttemptID();
    void setStatus(String msg);
    String getStatus();
    float getProgress();
    void progress();
}
