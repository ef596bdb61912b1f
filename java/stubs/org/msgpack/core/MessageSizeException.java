package org.msgpack.core;

public class MessageSizeException extends MessagePackException {
    public MessageSizeException() { super(); }
    public MessageSizeException(String message) { super(message); }
    public MessageSizeException(String message, Throwable cause) { super(message, cause); }
    public MessageSizeException(Throwable cause) { super(cause); }
}
