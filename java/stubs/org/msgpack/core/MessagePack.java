package org.msgpack.core;

import org.msgpack.core.buffer.*;

import java.io.InputStream;
import java.io.OutputStream;
import java.nio.ByteBuffer;

/**
 * Stand-in for msgpack-core 0.8.18 (not available offline): the same public classes and observable behaviour, written from the
 * MessagePack specification and the documentation of the library.
 */
public class MessagePack {
    private MessagePack() { }

    /** Called where a thread may be delayed by the monitors. */
    public static volatile Runnable point = null;

    static void point() {
        Runnable p = point;
        if (p != null) p.run();
    }

    public static class PackerConfig {
        public MessagePacker newPacker(OutputStream out) { return newDefaultPacker(out); }
        public MessageBufferPacker newBufferPacker() { return newDefaultBufferPacker(); }
    }

    public static class UnpackerConfig {
        public MessageUnpacker newUnpacker(InputStream in) { return newDefaultUnpacker(in); }
        public MessageUnpacker newUnpacker(byte[] b) { return newDefaultUnpacker(b); }
        public MessageUnpacker newUnpacker(byte[] b, int offset, int length) { return newDefaultUnpacker(b, offset, length); }
    }

    public static final PackerConfig DEFAULT_PACKER_CONFIG = new PackerConfig();
    public static final UnpackerConfig DEFAULT_UNPACKER_CONFIG = new UnpackerConfig();

    public static MessagePacker newDefaultPacker(MessageBufferOutput out) { return new MessagePacker(out); }

    public static MessagePacker newDefaultPacker(OutputStream out) { return new MessagePacker(new OutputStreamBufferOutput(out)); }

    public static MessageBufferPacker newDefaultBufferPacker() { return new MessageBufferPacker(new ArrayBufferOutput()); }

    public static MessageUnpacker newDefaultUnpacker(MessageBufferInput in) { point(); return new MessageUnpacker(in); }

    public static MessageUnpacker newDefaultUnpacker(InputStream in) { return newDefaultUnpacker(new InputStreamBufferInput(in)); }

    public static MessageUnpacker newDefaultUnpacker(byte[] contents) { return newDefaultUnpacker(new ArrayBufferInput(contents)); }

    public static MessageUnpacker newDefaultUnpacker(byte[] contents, int offset, int length) { return newDefaultUnpacker(new ArrayBufferInput(contents, offset, length)); }

    public static MessageUnpacker newDefaultUnpacker(ByteBuffer contents) { return newDefaultUnpacker(new ArrayBufferInput(MessageBuffer.wrap(contents))); }
}
