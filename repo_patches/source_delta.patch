From 4a123707dfc9171f0f9269167be990b6b81b89ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 001/138] fix: sparse signals slice, assign, append streams and
 report power like dense signals

---
 hermespy/core/signal_model.py | 246 +++++++---------------------------
 1 file changed, 51 insertions(+), 195 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 9cc47e1..c1d7a19 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -1715,12 +1715,12 @@ class SparseSignal(Signal):
     @property
     @override
     def energy(self) -> np.ndarray:
-        return np.sum([b.energy for b in self.blocks])
+        return np.sum([b.energy for b in self.blocks], axis=0)
 
     @property
     @override
     def power(self) -> np.ndarray:
-        return np.mean([b.power for b in self.blocks], axis=0)
+        return self.energy / self.num_samples
 
     @override
     def view(self, dtype: type[AT]) -> AT:
@@ -1764,7 +1764,7 @@ class SparseSignal(Signal):
             return [SignalBlock(block.shape[0], block.shape[1], offset, block.tobytes())]
 
         # Find nonzero columns indices
-        nonzero_cols_idx = np.sum(block.view(np.ndarray), axis=0).nonzero()[
+        nonzero_cols_idx = np.any(block.view(np.ndarray), axis=0).nonzero()[
             0
         ]  # [3, 4, 5, 6, 12, 13, 14, 16, 17, ...]
         if len(nonzero_cols_idx) == 0:
@@ -1994,48 +1994,6 @@ class SparseSignal(Signal):
             should_flatten_samples,
         )
 
-    def _find_affectedblocks(self, s10: int, s11: int) -> tuple[int, int]:
-        """Find indices of blocks that are affected by the given samples slice.
-
-        Arguments:
-            s10: Start of the samples slice.
-            s11: Stop of the samples slice.
-
-        Return:
-            b_start, b_stop:
-                Indices of the first and the last affected blocks.
-        """
-
-        # Done with a binary search algotrithm.
-
-        # Starting block
-        L = 0
-        R = len(self.blocks) - 1
-        b_start = L
-        while L < R:
-            b_start = -((R + L) // -2)  # upside-down floor division
-            if self.blocks[b_start].offset > s10:
-                R = b_start - 1
-            else:
-                L = b_start
-        if self.blocks[b_start].offset > s10 and b_start != 0:
-            b_start -= 1
-
-        # Stopping block
-        L = 0
-        R = len(self.blocks) - 1
-        b_stop = R
-        while L < R:
-            b_stop = (R + L) // 2
-            if self.blocks[b_stop].end < s11:
-                L = b_stop + 1
-            else:
-                R = b_stop
-        if self.blocks[b_stop].end < s11 and (len(self.blocks) - 1) > b_stop:
-            b_stop += 1
-
-        return b_start, b_stop
-
     @override
     def __getitem__(
         self, key: tuple[slice | SupportsIndex | Sequence[SupportsIndex], ...]
@@ -2075,13 +2033,15 @@ class SparseSignal(Signal):
         )
         selected_blocks: list[SignalBlock] = []
 
+        # Selecting a single stream by its index preserves the stream dimension
+        if isinstance(stream_selector, (int, np.integer)):
+            stream_selector = [stream_selector]
+
         # Handle the case in which samples are selcted by a slice, i.e. [..., a:b:c]
         if isinstance(sample_selector, slice):
-            samples_start: int = sample_selector.start if sample_selector.start is not None else 0
-            samples_end: int = (
-                sample_selector.stop if sample_selector.stop is not None else self.num_samples
-            )
-            samples_step: int = sample_selector.step if sample_selector.step is not None else 1
+            samples_start, samples_end, samples_step = sample_selector.indices(self.num_samples)
+            if samples_step < 1:
+                raise NotImplementedError("Only positive steps are implemented")
 
             for block in self.blocks:
 
@@ -2092,7 +2052,7 @@ class SparseSignal(Signal):
                 # Calculate the first index of the new block in the result
                 block_start_index = max(samples_start - block.offset, 0)
                 block_start_index += (
-                    block_start_index + block.offset - samples_start
+                    samples_start - block_start_index - block.offset
                 ) % samples_step
 
                 # Calculate the last index of the new block in the result
@@ -2183,153 +2143,40 @@ class SparseSignal(Signal):
         s01 = min(self.num_streams, s01)
         s11 = min(self.num_samples, s11)
 
-        # If insertion happens entirely before the first block
-        if s11 < self.blocks[0].offset:
-            # then create new blocks and insert them into the model
-            if not isinstance(value, np.ndarray):
-                value = np.complex128(value)
-                if value == 0.0 + 0.0j:
-                    return
-                bs_new = [
-                    SignalBlock(
-                        num_streams,
-                        num_samples,
-                        s10,
-                        bytearray(np.full((num_streams, num_samples), value, np.complex128)),
-                    )
-                ]
-            else:
-                bs_new = self.__from_dense(value.reshape((num_streams, num_samples)))
-            self.__blocks = bs_new + self.blocks
-            return
-
-        # Get sliced streames indices
+        # Get sliced streams indices
         stream_idx = np.arange(s00, s01, s02)
-        # Do nothing if no streams are affected
-        if stream_idx.size == 0:
-            return
-
-        # Parse and validate value samples
-        # Parse scalar values
-        if not isinstance(value, np.ndarray):
-            value = np.complex128(value)
 
-            # Special case: Do nothing if the value is zero
-            if value == 0.0 + 0.0j:
-                bs_new = []
+        # Do nothing if no samples are affected
+        if stream_idx.size == 0 or s11 <= s10:
+            return
 
-            # Otherwise the added blocks are a single block of the given value
-            else:
-                bs_new = [
-                    SignalBlock(
-                        num_streams,
-                        num_samples,
-                        s10,
-                        bytearray(np.full((num_streams, num_samples), value, np.complex128)),
-                    )
+        # Collect the samples currently stored within the selected window and
+        # keep the samples of all blocks before and after the selected window
+        window = np.zeros((self.num_streams, s11 - s10), dtype=np.complex128)
+        blocks_before: list[SignalBlock] = []
+        blocks_after: list[SignalBlock] = []
+        for b in self.blocks:
+            if b.offset < s10:
+                blocks_before.append(b[:, : s10 - b.offset])
+            if b.end > s11:
+                block_after = b[:, max(s11 - b.offset, 0) :]
+                block_after.offset = max(s11, b.offset)
+                blocks_after.append(block_after)
+
+            overlap_start, overlap_stop = max(b.offset, s10), min(b.end, s11)
+            if overlap_start < overlap_stop:
+                window[:, overlap_start - s10 : overlap_stop - s10] = b.view(np.ndarray)[
+                    :, overlap_start - b.offset : overlap_stop - b.offset
                 ]
 
-        # Parse matrix values
-        else:  # else value is a samples matrix
-            if value.ndim == 1:
-                value = value.reshape((num_streams, num_samples))
-            bs_new = self.__from_dense(value, s10)
-            if len(bs_new) == 0:
-                return  # pragma: no cover
-            if bs_new[-1].end - bs_new[0].offset > num_samples or bs_new[0].shape[0] != num_streams:
-                raise ValueError("Shape mismatch")
-
-        # Find blocks that will be overwritten or modified.
-        b_start, b_stop = self._find_affectedblocks(s10, s11)
-
-        # Example:
-        #     s10                   s11
-        #      v                     v
-        # xxxxxxxx0000000xxxx000xxxxxxxxx -- self signal
-        #      yyyyy00yy0000yyyyy0000     -- value
-        # xxxxxyyyyy00yy0000yyyyy0000xxxx -- result
-        # ^   ^                           -- remaining samples from the first affected block
-        #      ^   value samples    ^
-        #                            ^  ^ -- remaining samples from the last affected block
-
-        # Init the resulting blocks
-        # Here the resulting blocks list is divided
-        # onto 3 parts as on the ascii example.
-        # b_start and b_stop can be sliced partially and will be added to the lists right after.
-        # value argument will be applied only to the middle blocks (_mid).
-        blocks_new_beg = self.__blocks[:b_start]
-        blocks_new_mid = [b for b in self.__blocks[b_start + 1 : b_stop]]
-        blocks_new_end = self.__blocks[b_stop + 1 :]
-
-        # Cut the first affected block
-        # Example:
-        #      s10                  s10
-        #       v                    v
-        # xxxxxxxxxxxx00000 -> xxxxxxxxxxxx00000
-        # [ b_start  ]         [1st ][2nd ]
-        b = self.blocks[b_start]
-        cut_col = max(s10 - b.offset, 0)  # max is for s10 < self.blocks[0].offset
-        b_l = b[:, :cut_col]
-        b_r = b[:, cut_col:]
-        b_r.offset += cut_col
-        if b_l.size != 0:
-            blocks_new_beg.append(b_l)
-        if b_r.size != 0:
-            blocks_new_mid = [b_r] + blocks_new_mid
-
-        # Cut the last affected block
-        if b_start != b_stop:
-            b = self.blocks[b_stop]
-            cut_col = s11 - b.offset
-            b_l = b[:, :cut_col]
-            b_r = b[:, cut_col:]
-            b_r.offset += cut_col
-            if b_l.size != 0:
-                blocks_new_mid.append(b_l)
-            if b_r.size != 0:
-                blocks_new_end = [b_r] + blocks_new_end
-
-        # If only some of the streams are being replaced,
-        # then block merging must be performed.
-        if stream_idx.size != self.num_streams:
-            b_offs, b_stops = self._getblocks_union(blocks_new_mid, bs_new)
-
-            # Asseble the new blocks
-            incoming_signal = SparseSignal(
-                bs_new, self.sampling_rate, self.carrier_frequency, self.noise_power, self.delay
-            )
-            blocks_new_mid_new = []
-            for b_off, b_stop in zip(b_offs, b_stops):
-                b_new = self[(slice(None, None), slice(b_off, b_stop))].view(np.ndarray)
-                b_new[stream_idx, :] = incoming_signal[:, b_off : min(b_stop, s11)]
-
-                blocks_new_mid_new.append(
-                    SignalBlock(b_new.shape[0], b_new.shape[1], b_off, bytearray(b_new))
-                )
-            blocks_new_mid = blocks_new_mid_new
-
-        # Otherwise, the middle blocks are being simply replaced with the new ones
-        else:
-            blocks_new_mid = bs_new
+        # Overwrite the selected streams
+        if isinstance(value, np.ndarray) and value.ndim == 1:
+            value = value.reshape((num_streams, num_samples))
+        window[stream_idx, :] = value
 
         # Insert the result into this sparse signal model
-        self.__blocks = blocks_new_beg + blocks_new_mid + blocks_new_end
-        # merge new beginning blocks if needed
-        if len(blocks_new_beg) != 0:
-            b2_idx = len(blocks_new_beg)
-            b1 = self.__blocks[b2_idx - 1]
-            b2 = self.__blocks[b2_idx]
-            if b1.end == b2.offset:
-                self.__blocks[b2_idx - 1] = b1.append_samples(b2)
-                self.__blocks.pop(b2_idx)
-        # merge new ending blocks if needed
-        if len(blocks_new_end) != 0:
-            b2_idx = -len(blocks_new_end)
-            b1 = self.__blocks[b2_idx - 1]
-            b2 = self.__blocks[b2_idx]
-            if b1.end == b2.offset:
-                self.__blocks[b2_idx - 1] = b1.append_samples(b2)
-                self.__blocks.pop(b2_idx)
+        window_block = SignalBlock(window.shape[0], window.shape[1], s10, window.tobytes())
+        self.__blocks = blocks_before + [window_block] + blocks_after
 
     @override
     def resample(self, sampling_rate: float, aliasing_filter: bool = True) -> SparseSignal:
@@ -2615,6 +2462,9 @@ class SparseSignal(Signal):
             for b_ in self.__from_dense(b):
                 blocks_incoming.append(b_)
 
+        if any(b.end > self.num_samples for b in blocks_incoming):
+            raise ValueError("Appended streams exceed the number of samples")
+
         # Create new resulting blocks
         new_num_streams = self.num_streams + value.shape[0]
         b_offs, b_stops = self._getblocks_union(self.blocks, blocks_incoming)
@@ -2623,11 +2473,17 @@ class SparseSignal(Signal):
         for block_start, block_stop in zip(b_offs, b_stops):
 
             # Select the respective blocks to be mergerd from both signal models
-            initial_block = self[:, block_start:block_stop].view(np.ndarray)
-            appended_block = value[:, block_start:block_stop].view(np.ndarray)
+            # and merge them into a new block with increased number of streams
+            new_block = np.zeros((new_num_streams, block_stop - block_start), np.complex128)
+            for first_stream, blocks in ((0, self.blocks), (self.num_streams, blocks_incoming)):
+                for b in blocks:
+                    start, stop = max(b.offset, block_start), min(b.end, block_stop)
+                    if start < stop:
+                        new_block[
+                            first_stream : first_stream + b.num_streams,
+                            start - block_start : stop - block_start,
+                        ] = b[:, start - b.offset : stop - b.offset].view(np.ndarray)
 
-            # Merge the blocks into a new block with increased number of streams
-            new_block = np.concatenate((initial_block, appended_block), axis=0)
             blocks_new.append(
                 SignalBlock(
                     new_num_streams, block_stop - block_start, block_start, new_block.tobytes()
-- 
2.43.0


From 3c8f46e5021a9f383dba3ec81d5f8600bb83f2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 002/138] fix: superimpose adds signals to the selected streams
 at their delay without modifying them

---
 hermespy/core/device.py       |   2 +-
 hermespy/core/signal_model.py | 239 +++++++++++++++++-----------------
 2 files changed, 120 insertions(+), 121 deletions(-)

diff --git a/hermespy/core/device.py b/hermespy/core/device.py
index b8ec5e7..71f5aff 100644
--- a/hermespy/core/device.py
+++ b/hermespy/core/device.py
@@ -1520,7 +1520,7 @@ class Device(ABC, Generic[DST], Transformable, RandomNode, Serializable):
                 carrier_frequency=self.carrier_frequency,
             )
             for signal in impinging_signals:
-                superimposed_signal.superimpose(signal)
+                superimposed_signal = superimposed_signal.superimpose(signal)
 
         else:
             superimposed_signal = impinging_signals[0]
diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index c1d7a19..f48643e 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -1105,6 +1105,84 @@ class Signal(ABC, Iterable, Serializable):
         """
         ...  # pragma: no cover
 
+    def _align_added_signal(
+        self,
+        added_signal: Signal,
+        delay: float,
+        resample: bool,
+        aliasing_filter: bool,
+        interpolation: InterpolationMode,
+    ) -> list[SignalBlock]:
+        """Align the blocks of a superimposed signal to this signal's sampling grid.
+
+        The superimposed signal is not modified.
+
+        Args:
+            added_signal: The signal to be superimposed onto this one.
+            delay: Delay of the sampling grid's first sample in seconds.
+            resample: Allow for dynamic resampling.
+            aliasing_filter: Apply an anti-aliasing filter during resampling.
+            interpolation: Interpolation strategy to be used for different delays.
+
+        Returns: Resampled blocks, offset by the delay difference between both signals.
+        """
+
+        same_carrier = added_signal.carrier_frequency == self.carrier_frequency
+        if added_signal.sampling_rate != self.sampling_rate:
+            if not resample:
+                raise RuntimeError(
+                    "Resampling is required, but not allowed. "
+                    "Set resample=True to allow for resampling."
+                )
+            aligned_signal: Signal = added_signal.to_dense().resample(
+                self.sampling_rate, aliasing_filter=aliasing_filter
+            )
+
+        # Mixing filters the signal, so that its blocks can't be treated individually
+        else:
+            aligned_signal = added_signal if same_carrier else added_signal.to_dense()
+
+        delay_difference = added_signal.delay - delay
+        if delay_difference != 0.0 and interpolation is not InterpolationMode.NEAREST:
+            raise NotImplementedError("Only InterpolationMode.NEAREST is implemented")
+
+        shift = int(round(delay_difference * self.sampling_rate))
+        if shift < 0:
+            aligned_signal = aligned_signal[:, -shift:]
+
+        aligned_blocks: list[SignalBlock] = []
+        for b in aligned_signal.blocks:
+            aligned_block = b.view(np.ndarray).view(SignalBlock)
+            aligned_block.offset = b.offset + max(shift, 0)
+            aligned_blocks.append(aligned_block)
+        return aligned_blocks
+
+    @staticmethod
+    def _superimposed_streams(
+        stream_indices: Sequence[int] | slice | None, num_streams: int, num_added_streams: int
+    ) -> tuple[np.ndarray, np.ndarray]:
+        """Associate the streams of a superimposed signal with the streams of this signal.
+
+        Args:
+            stream_indices: Indices of the streams to be mixed.
+            num_streams: Number of streams to be superimposed to.
+            num_added_streams: Number of streams to be added.
+
+        Returns:
+            Stream indices to be superimposed to and the stream indices to be added.
+        """
+
+        if stream_indices is None:
+            targets = np.arange(num_added_streams)
+        elif isinstance(stream_indices, slice):
+            targets = np.arange(num_streams)[stream_indices]
+        else:
+            targets = np.asarray(stream_indices, dtype=np.int64).flatten()
+
+        # If only the selected streams are provided, they are added in the order of selection
+        sources = np.arange(num_added_streams) if len(targets) == num_added_streams else targets
+        return targets, sources
+
     @abstractmethod
     def to_dense(self) -> DenseSignal:
         """Concatenate all the blocks in the signal into one block.
@@ -1451,83 +1529,36 @@ class DenseSignal(SignalBlock, Signal):  # type: ignore[misc]
         stream_indices: Sequence[int] | slice | None = None,
         interpolation: InterpolationMode = InterpolationMode.NEAREST,
     ) -> Signal:
-        if stream_indices is None:
-            stream_indices = slice(None)
-
-        # If this signal is empty, simply return the added signal
-        if self.size < 1:
-            return added_signal
-
-        # Resample the added signal to the target sampling rate
-        if added_signal.sampling_rate != self.sampling_rate:
-            if not resample:
-                raise RuntimeError(
-                    "Resampling is required, but not allowed. "
-                    "Set resample=True to allow for resampling."
-                )
-            _added_signal = added_signal.resample(
-                self.sampling_rate, aliasing_filter=aliasing_filter
-            )
-
-        # If no resampling is required, simply use the added signal
-        else:
-            _added_signal = added_signal
-
-        # Account for possible delay differences
-        if self.delay != _added_signal.delay:
-            if interpolation == InterpolationMode.NEAREST:
-                if self.delay > _added_signal.delay:
-                    _added_signal = _added_signal[
-                        :,
-                        int(
-                            round((self.delay - _added_signal.delay) * _added_signal.sampling_rate)
-                        ) :,
-                    ]
-                else:
-                    _added_signal = _added_signal[
-                        :,
-                        : _added_signal.num_samples
-                        - int(
-                            round((_added_signal.delay - self.delay) * _added_signal.sampling_rate)
-                        ),
-                    ]
-
-            else:
-                raise NotImplementedError(
-                    f"Interpolation mode {interpolation} is not implemented yet."
-                )
+        # If this signal is empty, the result inherits the parameters of the added signal
+        parameters = added_signal if self.size < 1 else self
 
-        if (
-            _added_signal.num_streams <= self.num_streams
-            and _added_signal.num_samples <= self.num_samples
-        ):
-            return_signal = self
-
-        else:
-            # Generate a new dense signal with enough memory to hold both signals
-            new_num_streams = max(self.num_streams, _added_signal.num_streams)
-            new_num_samples = max(self.num_samples, _added_signal.num_samples)
-            dense_signal = DenseSignal.Zeros(
-                new_num_streams,
-                new_num_samples,
-                self.sampling_rate,
-                self.carrier_frequency,
-                self.noise_power,
-                self.delay,
-            )
+        # Resample and align the added signal to this signal
+        added_blocks = self._align_added_signal(
+            added_signal, parameters.delay, resample, aliasing_filter, interpolation
+        )
+        added_end = max((b.end for b in added_blocks), default=0)
 
-            # Add the current signal to the new dense signal
-            dense_signal[: self.num_streams, : self.num_samples] += self  # type: ignore
-            return_signal = dense_signal
+        # Generate a new dense signal with enough memory to hold both signals
+        return_signal = DenseSignal.Zeros(
+            max(self.num_streams, added_signal.num_streams if stream_indices is None else 0),
+            max(self.num_samples, added_end),
+            self.sampling_rate,
+            parameters.carrier_frequency,
+            parameters.noise_power,
+            parameters.delay,
+        )
+        return_signal[: self.num_streams, : self.num_samples] += self  # type: ignore
 
-        # Add the added_signal to the new dense signal
-        _stream_indices = slice(None) if stream_indices is None else stream_indices
-        for b in _added_signal.blocks:
-            return_signal[_stream_indices, b.offset : b.end] += b[_stream_indices, :].superimpose_to(  # type: ignore
+        # Add the added signal's streams to the selected streams of the new dense signal
+        targets, sources = self._superimposed_streams(
+            stream_indices, return_signal.num_streams, added_signal.num_streams
+        )
+        for b in added_blocks:
+            return_signal[targets, b.offset : b.end] += b[sources, :].superimpose_to(  # type: ignore
                 return_signal.sampling_rate,
                 return_signal.carrier_frequency,
-                _added_signal.sampling_rate,
-                _added_signal.carrier_frequency,
+                self.sampling_rate,
+                added_signal.carrier_frequency,
             )
 
         # Tadaaa
@@ -2200,70 +2231,38 @@ class SparseSignal(Signal):
         stream_indices: Sequence[int] | None = None,
         interpolation: InterpolationMode = InterpolationMode.NEAREST,
     ) -> SparseSignal:
-        # Account for the delay difference (if any)
-
-        # If the superimposed signal's delay is smaller,
-        # cut its leading samples accordingly
-        added_blocks: Sequence[SignalBlock] = added_signal.blocks
-        if self.delay > added_signal.delay:
-            if interpolation is InterpolationMode.NEAREST:
-                added_signal_shift = int(
-                    round((self.delay - added_signal.delay) * added_signal.sampling_rate)
-                )
-                added_signal = added_signal[:, added_signal_shift:]
-
-                # Do nothing if the added signal is empty
-                if added_signal.num_samples == 0:
-                    return self
-
-                added_blocks = added_signal.blocks
-            else:
-                raise NotImplementedError("Only InterpolationMode.NEAREST is implemented")
-
-        # If the superimposed signal's delay is larger,
-        # shift its blocks accordingly
-        elif self.delay < added_signal.delay:
-            num_delay_samples = int(
-                round((added_signal.delay - self.delay) * added_signal.sampling_rate)
-            )
-            added_blocks = added_signal.blocks
-            if interpolation is InterpolationMode.NEAREST:
-                for b in added_blocks:
-                    b.offset += num_delay_samples
-
-            else:
-                raise NotImplementedError("Only InterpolationMode.NEAREST is implemented")
+        if added_signal.sampling_rate != self.sampling_rate and not resample:
+            raise RuntimeError("Resampling required but not allowed")
 
         # Parse stream indices
-        num_streams = added_signal.num_streams if stream_indices is None else len(stream_indices)
-        _stream_indices: np.ndarray = (
-            np.arange(num_streams)
-            if stream_indices is None
-            else np.asarray(stream_indices, dtype=np.int64).flatten()
+        targets, sources = self._superimposed_streams(
+            stream_indices, self.num_streams, added_signal.num_streams
         )
 
         # Abort if zero streams are selected
         # This case occurs frequently when devices transmit to devices without receiving antennas
-        if len(_stream_indices) < 1:
+        if len(targets) < 1:
             return self
 
         # Validate
-        if _stream_indices.max() >= self.num_streams:
+        if targets.max() >= self.num_streams:
             raise ValueError(f"Stream indices must be in the interval [0, {self.num_streams - 1}]")
 
-        if added_signal.sampling_rate != self.sampling_rate and not resample:
-            raise RuntimeError("Resampling required but not allowed")
-
         # Generate superimposed signal blocks
-        added_resampled_blocks = [
-            b.resample_block(added_signal.sampling_rate, self.sampling_rate, False).superimpose_to(
+        added_resampled_blocks: list[SignalBlock] = []
+        for b in self._align_added_signal(
+            added_signal, self.delay, resample, aliasing_filter, interpolation
+        ):
+            added_block = np.zeros((self.num_streams, b.num_samples), dtype=np.complex128)
+            added_block[targets, :] += b[sources, :].superimpose_to(
                 self.sampling_rate,
                 self.carrier_frequency,
                 self.sampling_rate,
                 added_signal.carrier_frequency,
             )
-            for b in added_blocks
-        ]
+            added_resampled_blocks.append(
+                SignalBlock(self.num_streams, b.num_samples, b.offset, added_block.tobytes())
+            )
 
         # Create new blocks for the signals' intersections
         # and insert the mix results there
@@ -2273,7 +2272,7 @@ class SparseSignal(Signal):
             w_size = w_stop - w_off
 
             # Initialize a new block with zeros
-            unified_block = np.zeros((num_streams, w_size), np.complex128)
+            unified_block = np.zeros((self.num_streams, w_size), np.complex128)
 
             # Sum the samples from self
             for blocks in [self.blocks, added_resampled_blocks]:
-- 
2.43.0


From 2d84af2593cb0ee17475af342a89fc84e24e7a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 003/138] fix: decibel values of logarithmic sequences follow
 their linear values and conversion

---
 hermespy/core/logarithmic.py | 32 ++++----------------------------
 1 file changed, 4 insertions(+), 28 deletions(-)

diff --git a/hermespy/core/logarithmic.py b/hermespy/core/logarithmic.py
index 5784f7f..c79e497 100644
--- a/hermespy/core/logarithmic.py
+++ b/hermespy/core/logarithmic.py
@@ -253,7 +253,6 @@ class Logarithmic(float):
 class LogarithmicSequence(np.ndarray[tuple[int], np.dtype[np.float64]]):
     """A sequence of logarithmic numbers."""
 
-    __values_db: list[float]
     __conversion: DbConversionType
 
     def __new__(
@@ -300,21 +299,8 @@ class LogarithmicSequence(np.ndarray[tuple[int], np.dtype[np.float64]]):
         if instance is None:
             return  # pragma: no cover
 
-        # Convert view
-        view = self.view(np.ndarray).flatten()
-
-        # Abort if a numpy boolean array is represented
-        # This is required to work around a strange bug in assert_array_almost_equal
-        if not issubclass(view.dtype.type, np.floating) or self.ndim < 1:
-            np.ndarray.__array_finalize__(self, instance)
-            return
-
         # Recover initialization attributes
-        conversion = getattr(instance, "conversion", DbConversionType.POWER)
-
-        # Configure class atributes
-        self.__conversion = conversion
-        self.__values_db = [lin2db(float(value), conversion) for value in view]
+        self.__conversion = getattr(instance, "conversion", DbConversionType.POWER)
 
     @property
     def conversion(self) -> DbConversionType:
@@ -333,29 +319,19 @@ class LogarithmicSequence(np.ndarray[tuple[int], np.dtype[np.float64]]):
         """
 
         return [
-            Logarithmic.From_Tuple(lin, log, self.conversion)
-            for lin, log in zip(self.view(np.ndarray), self.__values_db)
+            Logarithmic(lin, ValueType.LIN, self.conversion) for lin in self.view(np.ndarray).tolist()
         ]
 
     @override
     def __getitem__(self, i: SupportsIndex) -> Logarithmic | np.ndarray:  # type: ignore[override]
         if isinstance(i, (int, np.integer)):
-            return Logarithmic.From_Tuple(
-                np.ndarray.__getitem__(self, i), self.__values_db[i], self.conversion
-            )
+            return Logarithmic(np.ndarray.__getitem__(self, i), ValueType.LIN, self.conversion)
 
         return np.ndarray.__getitem__(self, i)
 
     @override
     def __setitem__(self, i: SupportsIndex, item: Logarithmic | float | int) -> None:  # type: ignore[override]
-        # Convert non-logarithmic items to logarithmic
-        if isinstance(item, Logarithmic):
-            np.ndarray.__setitem__(self, i, float(item))
-            self.__values_db[i] = item.value_db
-
-        else:
-            np.ndarray.__setitem__(self, i, item)
-            self.__values_db[i] = lin2db(item, self.conversion)
+        np.ndarray.__setitem__(self, i, item)
 
     def __reduce__(
         self,
-- 
2.43.0


From 470467fc50d52e5779b034d0b4667948030d5ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 004/138] fix: quaternions, gimbal lock angles and look-at
 poses describe proper rotations

---
 hermespy/core/transformation.py  | 29 ++++++++++++++++++++---------
 hermespy/simulation/animation.py |  5 +----
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/hermespy/core/transformation.py b/hermespy/core/transformation.py
index d515f68..081b29c 100644
--- a/hermespy/core/transformation.py
+++ b/hermespy/core/transformation.py
@@ -147,13 +147,17 @@ class Transformation(np.ndarray, Serializable):
 
         c = (self[0, 0] ** 2 + self[1, 0] ** 2) ** 0.5
 
-        if c != 0:
+        if c > 1e-9:
             rpy = np.arctan2(
                 [self[2, 1] / c, -self[2, 0], self[1, 0] / c], [self[2, 2] / c, c, self[0, 0] / c]
             )
 
         else:
-            rpy = np.array([np.arctan2(self[0, 1], self[1, 1]), 0.5 * np.pi, 0], dtype=np.float64)
+            # Gimbal lock, only the combination of roll and yaw is defined so the yaw is assumed zero
+            rpy = np.array(
+                [np.arctan2(-self[1, 2], self[1, 1]), np.arctan2(-self[2, 0], c), 0.0],
+                dtype=np.float64,
+            )
 
         return rpy.view(np.ndarray)
 
@@ -209,7 +213,7 @@ class Transformation(np.ndarray, Serializable):
             S = 2 * (tr + 1.0) ** 0.5
             return np.array(
                 [
-                    0.25 / S,
+                    0.25 * S,
                     (self[2, 1] - self[1, 2]) / S,
                     (self[0, 2] - self[2, 0]) / S,
                     (self[1, 0] - self[0, 1]) / S,
@@ -222,7 +226,7 @@ class Transformation(np.ndarray, Serializable):
             return np.array(
                 [
                     (self[2, 1] - self[1, 2]) / S,
-                    0.25 / S,
+                    0.25 * S,
                     (self[0, 1] + self[1, 0]) / S,
                     (self[0, 2] + self[2, 0]) / S,
                 ],
@@ -235,7 +239,7 @@ class Transformation(np.ndarray, Serializable):
                 [
                     (self[0, 2] - self[2, 0]) / S,
                     (self[0, 1] + self[1, 0]) / S,
-                    0.25 / S,
+                    0.25 * S,
                     (self[1, 2] + self[2, 1]) / S,
                 ],
                 dtype=np.float64,
@@ -247,7 +251,7 @@ class Transformation(np.ndarray, Serializable):
                 (self[1, 0] - self[0, 1]) / S,
                 (self[0, 2] + self[2, 0]) / S,
                 (self[1, 2] + self[2, 1]) / S,
-                0.25 / S,
+                0.25 * S,
             ],
             dtype=np.float64,
         )
@@ -468,18 +472,24 @@ class Transformation(np.ndarray, Serializable):
         up_ = np.asarray(up)
         if up_.shape != (3,):
             raise ValueError(f"Got up of an unexpected shape (expected (3,), got {up_.shape})")
-        up_ /= np.linalg.norm(up_)
+        up_ = up_ / np.linalg.norm(up_)
 
         # Calculate new orientation
         # forward vector
         pos = self.translation
         f = target_ - pos
         f_norm = np.linalg.norm(f)
-        f = f / f_norm if f_norm != 0.0 else pos  # normalize
+        if f_norm == 0.0:
+            return self  # There is no direction to look at, keep the current orientation
+        f = f / f_norm  # normalize
         # side/right vector
         s = np.cross(up_, f)
         s_norm = np.linalg.norm(s)
-        s = s / s_norm if s_norm != 0.0 else up_  # normalize
+        if s_norm < 1e-9:
+            # Looking along the sky vector, assume an arbitrary perpendicular side vector
+            s = np.cross(np.eye(3)[np.argmin(np.abs(f))], f)
+            s_norm = np.linalg.norm(s)
+        s = s / s_norm  # normalize
         # up vector
         u = np.cross(f, s)
         # Calcualte the new transformation matrix
@@ -771,6 +781,7 @@ class Transformable(Serializable, TransformableLink):
         """
 
         self.pose.lookat(target, up)
+        self._kinematics_updated()
 
     def _kinematics_updated(self) -> None:
         # Clear the cached forwards transformation if the base has been updated
diff --git a/hermespy/simulation/animation.py b/hermespy/simulation/animation.py
index 94aa632..4026ec7 100644
--- a/hermespy/simulation/animation.py
+++ b/hermespy/simulation/animation.py
@@ -261,9 +261,6 @@ class StaticTrajectory(Trajectory):
     def sample_orientation(self, timestamp: float) -> np.ndarray:
         return self.__pose[:3, :3]
 
-    def sample(self, timestamp: float) -> TrajectorySample:
-        return TrajectorySample(timestamp, self.__pose, self.__velocity)
-
     @staticmethod
     def From_Translation(
         translation: np.ndarray, velocity: np.ndarray | None = None
@@ -400,7 +397,7 @@ class BITrajectoryB(Trajectory):
         start_point, end_point, start_time, end_time = self.__start_end_point_time(timestamp)
         if timestamp <= start_time or timestamp >= end_time:
             return np.zeros(3, np.float64)
-        return (end_point - start_point) / end_time - start_time
+        return (end_point - start_point) / (end_time - start_time)
 
     def sample_translation(self, timestamp: float) -> np.ndarray:
         start_point, _, start_time, end_time = self.__start_end_point_time(timestamp)
-- 
2.43.0


From d828b1b119a8000a77c077be85f5d37e02f69e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 005/138] fix: wrapped sample points configure scalar grid
 dimensions like plain values

---
 hermespy/core/pymonte/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/pymonte/grid.py b/hermespy/core/pymonte/grid.py
index dcabc0d..56b9db3 100644
--- a/hermespy/core/pymonte/grid.py
+++ b/hermespy/core/pymonte/grid.py
@@ -382,8 +382,8 @@ class GridDimension(GridDimensionInfo):
 
             # If the dimension value is a scalar dimension, we can directly use the lshift operator to configure
             # the object with the sample point values, given that the sample points are scalars as well
-            if isinstance(dimension_value, ScalarDimension) and np.all(
-                np.vectorize(np.isscalar)(sample_points)
+            if isinstance(dimension_value, ScalarDimension) and all(
+                np.isscalar(s.value if isinstance(s, SamplePoint) else s) for s in sample_points
             ):
                 self.__setter_lambdas += (dimension_value.__lshift__,)
                 title = dimension_value.title
-- 
2.43.0


From 5af5c7356d52aca9234541dd753b7332946cfbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 006/138] fix: single offset blocks keep their position and
 signals can be assigned to sparse signals

---
 hermespy/core/signal_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index f48643e..27b4511 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -895,7 +895,9 @@ class Signal(ABC, Iterable, Serializable):
             SparseSignal if samples argument is a list of ndarrays. DenseSignal otherwise.
         """
 
-        if isinstance(samples, Sequence) and len(samples) != 1:
+        if isinstance(samples, Sequence) and (
+            len(samples) != 1 or (isinstance(samples[0], SignalBlock) and samples[0].offset > 0)
+        ):
             return SparseSignal(samples, sampling_rate, carrier_frequency, noise_power, delay)
 
         dense_delay = delay
@@ -2201,6 +2203,8 @@ class SparseSignal(Signal):
                 ]
 
         # Overwrite the selected streams
+        if isinstance(value, Signal):
+            value = value.to_dense().view(np.ndarray)
         if isinstance(value, np.ndarray) and value.ndim == 1:
             value = value.reshape((num_streams, num_samples))
         window[stream_idx, :] = value
-- 
2.43.0


From 641256d761826a55f409a0d6a5dbec9e20d8e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 007/138] fix: antenna responses and states consider the array
 pose, dipoles can be arranged in arrays

---
 hermespy/core/antennas.py       | 15 ++++++++++-----
 hermespy/core/transformation.py |  3 ++-
 hermespy/simulation/antennas.py |  6 +++++-
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/hermespy/core/antennas.py b/hermespy/core/antennas.py
index cecea0e..8058388 100644
--- a/hermespy/core/antennas.py
+++ b/hermespy/core/antennas.py
@@ -608,8 +608,10 @@ class Dipole(Antenna, Serializable):
         return Dipole(self.mode, self.pose.copy())
 
     def local_characteristics(self, azimuth: float, elevation: float) -> np.ndarray:
+        # The pattern vanishes along both directions of the dipole's axis
+        sin_elevation = sin(elevation)
         vertical_polarization = (
-            0.0 if elevation == 0.0 else cos(0.5 * pi * cos(elevation)) / sin(elevation)
+            0.0 if abs(sin_elevation) < 1e-9 else cos(0.5 * pi * cos(elevation)) / sin_elevation
         )
         return np.array([vertical_polarization, 0.0], dtype=float)
 
@@ -800,9 +802,11 @@ class AntennaArrayBase(ABC, Transformable):
 
         # Handle spherical parameters of function overload
         if not isinstance(arg_0, Direction):
-            global_direction = Direction.From_Cartesian(
-                arg_0 - self.global_position if frame == "global" else arg_0, True
-            )
+            if frame == "global":
+                global_direction = Direction.From_Cartesian(arg_0 - self.global_position, True)
+
+            else:
+                global_direction = self.forwards_transformation.transform_direction(arg_0, True)
 
         # Handle cartesian vector parameters of function overload
         else:
@@ -1293,7 +1297,8 @@ class AntennaArray(AntennaArrayBase, Generic[AT]):
 
         # Create a copy of the antenna elements
         antenna_copies: list[AT] = [a.copy() for a in self.antennas]
-        return AntennaArrayState(antenna_copies, base_pose)
+        global_pose = (base_pose @ self.pose).view(Transformation)
+        return AntennaArrayState(antenna_copies, global_pose)
 
 
 class UniformArray(Generic[AT], AntennaArray[AT], Serializable):
diff --git a/hermespy/core/transformation.py b/hermespy/core/transformation.py
index 081b29c..828a1c7 100644
--- a/hermespy/core/transformation.py
+++ b/hermespy/core/transformation.py
@@ -79,7 +79,8 @@ class Direction(np.ndarray):
 
         # Equation 7.1-7 of ETSI TR 138901 v17
         # Only valid if the direction has been normalized!!!!
-        zenith = np.arccos(unit_vector[2])
+        # Limited to the valid range, since rotations may exceed it by rounding errors
+        zenith = np.arccos(min(1.0, max(-1.0, unit_vector[2])))
 
         return np.array([azimuth, zenith], dtype=np.float64)
 
diff --git a/hermespy/simulation/antennas.py b/hermespy/simulation/antennas.py
index 7578bfa..3840e69 100644
--- a/hermespy/simulation/antennas.py
+++ b/hermespy/simulation/antennas.py
@@ -166,6 +166,10 @@ class SimulatedDipole(SimulatedAntenna, Dipole):
         Dipole.__init__(self, mode, pose)
         SimulatedAntenna.__init__(self, mode, pose, weight)
 
+    @override
+    def copy(self) -> SimulatedDipole:
+        return SimulatedDipole(self.mode, self.pose, self.weight)
+
 
 class SimulatedIdealAntenna(SimulatedAntenna, IdealAntenna):
     """Model of single ideal antenna within an antenna array."""
@@ -804,5 +808,5 @@ class SimulatedCustomArray(SimulatedAntennaArray, CustomAntennaArray[SimulatedAn
         """
 
         # Initialize base classes
-        CustomAntennaArray.__init__(self, ports, pose)
         SimulatedAntennaArray.__init__(self, pose)
+        CustomAntennaArray.__init__(self, ports, pose)
-- 
2.43.0


From 0a76d3966cb6c282805dfc0db20162072e9fb8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 008/138] fix: chained encoders decode their codes for
 arbitrary block sizes, scramblers separate transmit and receive state

---
 hermespy/fec/coding.py                  | 212 +++++++++++++-----------
 hermespy/fec/cyclic_redundancy_check.py |   2 +-
 hermespy/fec/scrambler.py               |  36 ++--
 3 files changed, 144 insertions(+), 106 deletions(-)

diff --git a/hermespy/fec/coding.py b/hermespy/fec/coding.py
index 7242f9f..6f579c6 100644
--- a/hermespy/fec/coding.py
+++ b/hermespy/fec/coding.py
@@ -238,60 +238,58 @@ class EncoderManager(RandomNode, Serializable):
             ValueError: If `num_code_bits` is smaller than the resulting code bits after encoding.
         """
 
-        code_state = data_bits.copy()
-
-        # Loop through the encoders and encode the data, using the output of the last encoder as input to the next
-        for encoder in self._encoders:
-            # Skip if the respective encoder is disabled
-            if not encoder.enabled:
-                continue
+        bit_block_size, stages = self.__block_stages()
+        code_block_size = self.code_block_size
 
-            data_block_size = encoder.bit_block_size
-            code_block_size = encoder.code_block_size
+        # Compute the number of blocks required to encode all data bits
+        num_blocks = ceil(len(data_bits) / bit_block_size)
+        num_padding_bits = num_code_bits - num_blocks * code_block_size if num_code_bits else 0
 
-            # Compute the number of blocks within the code for this coding step
-            num_blocks = ceil(len(code_state) / data_block_size)
+        # Validate the request before the internal state of any encoder is altered
+        if num_padding_bits < 0:
+            raise RuntimeError(
+                "Too many input bits provided for encoding, truncating would destroy information"
+            )
 
-            # Pad if allowed
-            data_state = code_state
-            code_state = np.empty(num_blocks * code_block_size, dtype=bool)
+        if not self.allow_padding:
+            if (
+                num_padding_bits > 0
+                or len(data_bits) < num_blocks * bit_block_size
+                or num_blocks > 0
+                and any(num_bits % encoder.bit_block_size for encoder, num_bits, _ in stages)
+            ):
+                raise RuntimeError("Encoding would require padding, but padding is not allowed")
 
-            required_num_data_bits = num_blocks * data_block_size
-            if len(data_state) < required_num_data_bits:
-                if not self.allow_padding:
-                    raise RuntimeError("Encoding would require padding, but padding is not allowed")
+        if num_padding_bits >= code_block_size:
+            raise ValueError("Insufficient number of input blocks provided for encoding")
 
-                num_padding_bits = required_num_data_bits - len(data_state)
-                data_state = np.append(
-                    data_state, self._rng.integers(0, 2, num_padding_bits, dtype=bool)
-                )
+        code_state = self.__pad(data_bits.copy(), num_blocks * bit_block_size)
 
-            # Encode all blocks sequentially
-            for block_idx in range(num_blocks):
-                encoded_block = encoder.encode(
-                    data_state[block_idx * data_block_size : (1 + block_idx) * data_block_size]
-                )
-                code_state[block_idx * code_block_size : (1 + block_idx) * code_block_size] = (
-                    encoded_block
+        if len(stages) > 0:
+            # Loop through the encoders and encode the data block by block,
+            # using the output of the last encoder as input to the next
+            code_blocks = code_state.reshape((num_blocks, bit_block_size))
+            for encoder, _, num_repetitions in stages:
+                data_block_size = encoder.bit_block_size
+                encoded_blocks = np.empty(
+                    (num_blocks, num_repetitions * encoder.code_block_size), dtype=bool
                 )
 
-        if num_code_bits and len(code_state) > num_code_bits:
-            raise RuntimeError(
-                "Too many input bits provided for encoding, truncating would destroy information"
-            )
-
-        if num_code_bits and len(code_state) < num_code_bits:
-            if not self.allow_padding:
-                raise RuntimeError("Encoding would require padding, but padding is not allowed")
+                for encoded_block, code_block in zip(encoded_blocks, code_blocks):
+                    padded_block = self.__pad(code_block, num_repetitions * data_block_size)
+                    encoded_block[:] = np.concatenate(
+                        [
+                            encoder.encode(sub_block)
+                            for sub_block in padded_block.reshape((-1, data_block_size))
+                        ]
+                    )
 
-            num_padding_bits = num_code_bits - len(code_state)
+                code_blocks = encoded_blocks
 
-            if num_padding_bits >= self.code_block_size:
-                raise ValueError("Insufficient number of input blocks provided for encoding")
+            code_state = code_blocks.flatten()
 
-            code_state = np.append(
-                code_state, self._rng.integers(0, 2, num_padding_bits, dtype=bool)
-            )
+        # Pad the code to the requested number of bits
+        code_state = self.__pad(code_state, len(code_state) + num_padding_bits)
 
         # Return resulting overall code
         return code_state
@@ -336,30 +334,29 @@ class EncoderManager(RandomNode, Serializable):
             num_data_bits = num_blocks * bit_block_size
 
         data_state = encoded_bits.copy()
+        _, stages = self.__block_stages()
 
-        # Loop through the encoders decode the code using the output of the last encoder as input to the next
-        for encoder in reversed(self._encoders):
-            # Skip if the respective encoder is disabled
-            if not encoder.enabled:
-                continue
+        if len(stages) > 0:
+            # Loop through the encoders in reverse order and decode the code block by block,
+            # using the output of the last encoder as input to the next
+            data_blocks = data_state[: num_blocks * code_block_size].reshape(
+                (num_blocks, code_block_size)
+            )
+            for encoder, num_stage_bits, num_repetitions in reversed(stages):
+                decoded_blocks = np.empty((num_blocks, num_stage_bits), dtype=bool)
 
-            code_block_size = encoder.code_block_size
-            data_block_size = encoder.bit_block_size
+                for decoded_block, data_block in zip(decoded_blocks, data_blocks):
+                    # Bits exceeding the number of input bits are padding added during encoding
+                    decoded_block[:] = np.concatenate(
+                        [
+                            encoder.decode(sub_block)
+                            for sub_block in data_block.reshape((num_repetitions, -1))
+                        ]
+                    )[:num_stage_bits]
 
-            # Compute the number of blocks within the code for this coding step
-            num_blocks = int(len(data_state) / code_block_size)
+                data_blocks = decoded_blocks
 
-            # Truncate if allowed, otherwise throw an exception
-            code_state = data_state[: num_blocks * code_block_size]
-            data_state = np.empty(num_blocks * data_block_size, dtype=bool)
-
-            # Decode all blocks sequentially
-            for block_idx in range(num_blocks):
-                data_state[block_idx * data_block_size : (1 + block_idx) * data_block_size] = (
-                    encoder.decode(
-                        code_state[block_idx * code_block_size : (1 + block_idx) * code_block_size]
-                    )
-                )
+            data_state = data_blocks.flatten()
 
         # Return resulting data
         return data_state[:num_data_bits]
@@ -372,28 +369,7 @@ class EncoderManager(RandomNode, Serializable):
         or the number of output bits during receive decoding.
         Referred to as :math:`K` within the respective equations."""
 
-        if len(self._encoders) < 1:
-            return 1
-
-        encoder_index = 0
-        block_size = 1
-        num_bits = 1
-
-        for encoder_index, encoder in enumerate(self._encoders):
-            if encoder.enabled:
-                block_size = encoder.bit_block_size
-                num_bits = encoder.code_block_size
-                break
-
-        for encoder in self._encoders[encoder_index + 1 :]:
-            if not encoder.enabled:
-                continue
-
-            repetitions = int(encoder.bit_block_size / num_bits)
-            block_size *= repetitions
-            num_bits *= int(repetitions / encoder.rate)
-
-        return block_size
+        return self.__block_stages()[0]
 
     @property
     def code_block_size(self) -> int:
@@ -404,11 +380,62 @@ class EncoderManager(RandomNode, Serializable):
         Referred to as :math:`L` within the respective equations.
         """
 
-        for encoder in reversed(self.encoders):
-            if encoder.enabled:
-                return encoder.code_block_size
+        _, stages = self.__block_stages()
+        if len(stages) < 1:
+            return 1
+
+        last_encoder, _, num_repetitions = stages[-1]
+        return num_repetitions * last_encoder.code_block_size
+
+    def __block_stages(self) -> tuple[int, list[tuple[Encoder, int, int]]]:
+        """Plan the coding stages required to encode a single block of data bits.
+
+        Each stage fits as many blocks of the previous stages as possible into its own data block.
+        Stages generating more bits than can be consumed by a single block of the following
+        stage are followed by multiple blocks of said stage.
+
+        Returns:
+            Number of data bits per block and a list of enabled encoders,
+            number of bits available to the encoder and the number of encoder blocks consuming them.
+        """
+
+        encoders = [encoder for encoder in self._encoders if encoder.enabled]
+        if len(encoders) < 1:
+            return 1, []
+
+        bit_block_size = encoders[0].bit_block_size
+        num_bits = encoders[0].code_block_size
+        for encoder in encoders[1:]:
+            repetitions = max(1, encoder.bit_block_size // num_bits)
+            bit_block_size *= repetitions
+            num_bits = (
+                ceil(repetitions * num_bits / encoder.bit_block_size) * encoder.code_block_size
+            )
+
+        stages: list[tuple[Encoder, int, int]] = []
+        num_bits = bit_block_size
+        for encoder in encoders:
+            num_repetitions = ceil(num_bits / encoder.bit_block_size)
+            stages.append((encoder, num_bits, num_repetitions))
+            num_bits = num_repetitions * encoder.code_block_size
+
+        return bit_block_size, stages
+
+    def __pad(self, bits: np.ndarray, num_bits: int) -> np.ndarray:
+        """Pad a vector of bits to a given length by appending random bits.
+
+        Args:
+            bits: Vector of bits to be padded.
+            num_bits: Expected number of bits after padding.
+
+        Returns: The padded vector of bits.
+        """
+
+        num_padding_bits = num_bits - len(bits)
+        if num_padding_bits < 1:
+            return bits
 
-        return 1
+        return np.append(bits, self._rng.integers(0, 2, num_padding_bits, dtype=bool))
 
     def __execution_order(self) -> list[Encoder]:
         """Sort the encoders into an order of execution.
@@ -432,12 +459,7 @@ class EncoderManager(RandomNode, Serializable):
         between the :meth:`.bit_block_size` :math:`K` and :meth:`.code_block_size` :math:`L`.
         """
 
-        code_rate = 1.0
-        for encoder in self._encoders:
-            if encoder.enabled:
-                code_rate *= encoder.rate
-
-        return code_rate
+        return self.bit_block_size / self.code_block_size
 
     def required_num_data_bits(self, num_code_bits: int) -> int:
         """Compute the number of input bits required to produce a certain number of output bits.
diff --git a/hermespy/fec/cyclic_redundancy_check.py b/hermespy/fec/cyclic_redundancy_check.py
index 254b53d..435a33f 100644
--- a/hermespy/fec/cyclic_redundancy_check.py
+++ b/hermespy/fec/cyclic_redundancy_check.py
@@ -64,7 +64,7 @@ class CyclicRedundancyCheck(Encoder, RandomNode, Serializable):
         return np.append(data, self._rng.integers(0, 2, self.__check_block_size))
 
     def decode(self, code: np.ndarray) -> np.ndarray:
-        return code[: -self.__check_block_size]
+        return code[: self.__bit_block_size]
 
     @property
     def bit_block_size(self) -> int:
diff --git a/hermespy/fec/scrambler.py b/hermespy/fec/scrambler.py
index 1ecda1c..bff28d1 100644
--- a/hermespy/fec/scrambler.py
+++ b/hermespy/fec/scrambler.py
@@ -191,7 +191,8 @@ class Scrambler80211a(Encoder, Serializable):
     """
 
     __seed: np.ndarray
-    __queue: deque
+    __transmit_queue: deque
+    __receive_queue: deque
     __default_seed: np.ndarray = np.array([0, 1, 0, 1, 1, 0, 1], dtype=int)
 
     def __init__(self, seed: np.ndarray | None = None) -> None:
@@ -208,7 +209,7 @@ class Scrambler80211a(Encoder, Serializable):
 
         # The default seed is all zeros
         self.__seed = self.__default_seed.copy() if seed is None else seed
-        self.__queue = deque(self.__seed, 7)
+        self.__reset()
 
     @property
     def seed(self) -> np.ndarray:
@@ -238,42 +239,57 @@ class Scrambler80211a(Encoder, Serializable):
                 raise ValueError("Only bits (i.e. 0 or 1) represent valid seed fields")
 
         self.__seed = value
-        self.__queue = deque(self.__seed, 7)
+        self.__reset()
+
+    def __reset(self) -> None:
+        """Reset the internal register queues to the configured seed."""
+
+        self.__transmit_queue = deque(self.__seed, 7)
+        self.__receive_queue = deque(self.__seed, 7)
 
     def encode(self, data: np.ndarray) -> np.ndarray:
-        code = np.array([self.__scramble_bit(bit) for bit in data], dtype=int)
+        code = np.array([self.__scramble_bit(bit, self.__transmit_queue) for bit in data], dtype=int)
         return code
 
     def decode(self, code: np.ndarray) -> np.ndarray:
-        data = np.array([self.__scramble_bit(bit) for bit in code], dtype=int)
+        data = np.array([self.__scramble_bit(bit, self.__receive_queue) for bit in code], dtype=int)
         return data
 
-    def __forward_code_bit(self) -> int:
+    def __forward_code_bit(self, queue: deque | None = None) -> int:
         """Generate the next bit in the scrambling sequence.
 
         The sequence depends on the configured seed.
 
+        Args:
+            queue:
+                The register queue to be forwarded.
+                By default, the queue scrambling transmitted bits is forwarded.
+
         Returns:
             int:
                 The next bit within the scrambling sequence
         """
 
-        code_bit = (self.__queue[3] + self.__queue[6]) % 2
-        self.__queue.appendleft(code_bit)
+        queue = self.__transmit_queue if queue is None else queue
+        code_bit = (queue[3] + queue[6]) % 2
+        queue.appendleft(code_bit)
 
         return code_bit
 
-    def __scramble_bit(self, bit: int) -> int:
+    def __scramble_bit(self, bit: int, queue: deque) -> int:
         """Scramble a given bit.
 
         Args:
             bit(int):
                 The bit to be scrambled.
 
+            queue(deque):
+                The register queue generating the scrambling sequence.
+
         Returns:
             int: The scrambled bit."""
 
-        return (self.__forward_code_bit() + bit) % 2
+        return (self.__forward_code_bit(queue) + bit) % 2
 
     @property
     def bit_block_size(self) -> int:
-- 
2.43.0


From e787e53e6facfd9369bb43818c216fbf530b1871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 009/138] fix: reported constellations do not expose the
 internal mapping

---
 hermespy/modem/tools/psk_qam_mapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/modem/tools/psk_qam_mapping.py b/hermespy/modem/tools/psk_qam_mapping.py
index 189abb0..4449e28 100644
--- a/hermespy/modem/tools/psk_qam_mapping.py
+++ b/hermespy/modem/tools/psk_qam_mapping.py
@@ -504,7 +504,7 @@ class PskQamMapping(Serializable):
             See specifications in "PskQamMapping.__init__"
         """
         if self.mapping is not None:
-            mapping = self.mapping
+            mapping = self.mapping.copy()
         else:
             bits_all = np.zeros(self.modulation_order * self.bits_per_symbol, np.uint8)
             for symbol_idx in range(self.modulation_order):
-- 
2.43.0


From 4769794678b8e9e5eaa3f2a5576ed06b5c61e1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 010/138] fix: coding configurations passed to modems and
 devices keep their order and are not registered twice

---
 hermespy/core/device.py |  8 ++++----
 hermespy/modem/modem.py | 23 +++++++++--------------
 2 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/hermespy/core/device.py b/hermespy/core/device.py
index 71f5aff..c13f1d3 100644
--- a/hermespy/core/device.py
+++ b/hermespy/core/device.py
@@ -1168,8 +1168,8 @@ class Device(ABC, Generic[DST], Transformable, RandomNode, Serializable):
                 if isinstance(transmit_encoding, TransmitStreamEncoder)
                 else transmit_encoding
             )
-            for encoder in _tx_encoders:
-                self.__transmit_coding[-1] = encoder
+            for encoder_idx, encoder in enumerate(_tx_encoders):
+                self.__transmit_coding[encoder_idx] = encoder
 
         # Initialize digital receive decoding layer
         self.__receive_coding = ReceiveSignalCoding()
@@ -1179,8 +1179,8 @@ class Device(ABC, Generic[DST], Transformable, RandomNode, Serializable):
                 if isinstance(receive_decoding, ReceiveStreamDecoder)
                 else receive_decoding
             )
-            for decoder in _rx_decoders:
-                self.__receive_coding[-1] = decoder
+            for decoder_idx, decoder in enumerate(_rx_decoders):
+                self.__receive_coding[decoder_idx] = decoder
 
         # Initialize other various class attributes
         self.__input_callbacks = Hookable()
diff --git a/hermespy/modem/modem.py b/hermespy/modem/modem.py
index 5046aed..727b081 100644
--- a/hermespy/modem/modem.py
+++ b/hermespy/modem/modem.py
@@ -541,8 +541,7 @@ class BaseModem(Generic[CWT], RandomNode, Serializable):
             self.encoder_manager = encoding
         else:
             self.encoder_manager = EncoderManager()
-        if encoding is not None:
-            for encoder in encoding.encoders if isinstance(encoding, EncoderManager) else encoding:
+            for encoder in encoding if encoding is not None else []:
                 self.encoder_manager.add_encoder(encoder)
 
         # Initialize the remaining attributes
@@ -694,18 +693,16 @@ class TransmittingModemBase(Generic[CWT], BaseModem[CWT]):
             self.__transmit_symbol_coding = transmit_symbol_coding
         else:
             self.__transmit_symbol_coding = TransmitSymbolCoding()
-        if transmit_symbol_coding is not None:
-            for transmit_symbol_encoder in transmit_symbol_coding:
-                self.__transmit_symbol_coding[-1] = transmit_symbol_encoder
+            for encoder_idx, transmit_symbol_encoder in enumerate(transmit_symbol_coding or []):
+                self.__transmit_symbol_coding[encoder_idx] = transmit_symbol_encoder
 
         # Initialize transmit signal coding configuration
         if isinstance(transmit_signal_coding, TransmitSignalCoding):
             self.__transmit_signal_coding = transmit_signal_coding
         else:
             self.__transmit_signal_coding = TransmitSignalCoding()
-        if transmit_signal_coding is not None:
-            for transmit_signal_encoder in transmit_signal_coding:
-                self.__transmit_signal_coding[-1] = transmit_signal_encoder
+            for encoder_idx, transmit_signal_encoder in enumerate(transmit_signal_coding or []):
+                self.__transmit_signal_coding[encoder_idx] = transmit_signal_encoder
 
         # Initialize remaining attributes
         self.bits_source = RandomBitsSource() if bits_source is None else bits_source
@@ -1049,18 +1046,16 @@ class ReceivingModemBase(Generic[CWT], BaseModem[CWT]):
             self.__receive_symbol_coding = receive_symbol_coding
         else:
             self.__receive_symbol_coding = ReceiveSymbolCoding()
-        if receive_symbol_coding is not None:
-            for receive_symbol_decoder in receive_symbol_coding:
-                self.__receive_symbol_coding[-1] = receive_symbol_decoder
+            for decoder_idx, receive_symbol_decoder in enumerate(receive_symbol_coding or []):
+                self.__receive_symbol_coding[decoder_idx] = receive_symbol_decoder
 
         # Initialize receive signal coding configuration
         if isinstance(receive_signal_coding, ReceiveSignalCoding):
             self.__receive_signal_coding = receive_signal_coding
         else:
             self.__receive_signal_coding = ReceiveSignalCoding()
-        if receive_signal_coding is not None:
-            for receive_signal_decoder in receive_signal_coding:
-                self.__receive_signal_coding[-1] = receive_signal_decoder
+            for decoder_idx, receive_signal_decoder in enumerate(receive_signal_coding or []):
+                self.__receive_signal_coding[decoder_idx] = receive_signal_decoder
 
     @property
     def receive_signal_coding(self) -> ReceiveSignalCoding:
-- 
2.43.0


From c4aece47417a0bf7d7685c85da075d252884a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 011/138] fix: channel state conversions, sections,
 concatenations and linear operators are lossless for every tensor shape and
 storage format

---
 hermespy/core/channel.py | 95 ++++++++++++++++++++++++++++++----------
 1 file changed, 73 insertions(+), 22 deletions(-)

diff --git a/hermespy/core/channel.py b/hermespy/core/channel.py
index e703ddd..e5db1ff 100644
--- a/hermespy/core/channel.py
+++ b/hermespy/core/channel.py
@@ -213,7 +213,8 @@ class ChannelStateInformation(Serializable):
         """
 
         if self.__state_format == ChannelStateFormat.FREQUENCY_SELECTIVITY:
-            self.__state = ifft(self.__state, axis=3)
+            # Remove the padding introduced by converting to more frequency bins than delay taps
+            self.__state = ifft(self.dense_state(), axis=3)[:, :, :, : self.__num_delay_taps]
             self.__state_format = ChannelStateFormat.IMPULSE_RESPONSE
 
         return self
@@ -241,7 +242,7 @@ class ChannelStateInformation(Serializable):
             else:
                 self.__num_frequency_bins = num_bins
 
-            self.__state = fft(self.dense_state()[:, :, :num_bins, :], axis=3, n=num_bins)
+            self.__state = fft(self.dense_state(), axis=3, n=num_bins)
 
             self.__state_format = ChannelStateFormat.FREQUENCY_SELECTIVITY
 
@@ -332,13 +333,13 @@ class ChannelStateInformation(Serializable):
 
         coordinates = [
             rx_ids.repeat(num_tx * num_taps * num_in),
-            tx_ids.repeat(num_rx * num_taps * num_in).reshape((num_tx, -1), order="F").flatten(),
+            np.tile(tx_ids.repeat(num_taps * num_in), num_rx),
             np.tile(out_ids, num_rx * num_tx),
             np.tile(in_ids, num_rx * num_tx),
         ]
 
         transformation = COO(
-            coordinates, self.__state.flatten(), shape=(num_rx, num_tx, num_out, num_in)
+            coordinates, self.dense_state().flatten(), shape=(num_rx, num_tx, num_out, num_in)
         )
         return transformation
 
@@ -364,14 +365,13 @@ class ChannelStateInformation(Serializable):
 
         coordinates = [
             rx_ids.repeat(num_tx * num_symbols),
-            # ToDo: This is probably not completely correct
             np.tile(tx_ids.repeat(num_symbols), num_rx),
             np.tile(diagonal_ids, num_rx * num_tx),
             np.tile(diagonal_ids, num_rx * num_tx),
         ]
 
         transformation = COO(
-            coordinates, self.__state.flatten(), shape=(num_rx, num_tx, num_symbols, num_symbols)
+            coordinates, self.dense_state().flatten(), shape=(num_rx, num_tx, num_symbols, num_symbols)
         )
         return transformation
 
@@ -405,7 +405,12 @@ class ChannelStateInformation(Serializable):
         """
 
         for received_stream in self.__state:
-            yield ChannelStateInformation(self.__state_format, received_stream[np.newaxis, ...])
+            yield ChannelStateInformation(
+                self.__state_format,
+                received_stream[np.newaxis, ...],
+                self.__num_delay_taps,
+                self.__num_frequency_bins,
+            )
 
     def samples(self) -> Generator[ChannelStateInformation, ChannelStateInformation, None]:
         """Iterate over the sample slices within this channel state.
@@ -432,17 +437,40 @@ class ChannelStateInformation(Serializable):
         Returns: New channel state with a section according to `value` slice.
         """
 
-        state_section = self.__state[section]
+        state_section = self.__state[self.__section_slices(section)]
 
-        for s, sec in enumerate(section):  # type: ignore
-            if isinstance(sec, int):
-                state_section = np.expand_dims(state_section, axis=s)
+        num_delay_taps, num_frequency_bins = (
+            (self.__num_delay_taps, self.__num_frequency_bins)
+            if state_section.shape[3] == self.__state.shape[3]
+            else (None, None)
+        )
 
-        num_delay_taps = (
-            self.__num_delay_taps if state_section.shape[3] == self.__state.shape[3] else None
+        return ChannelStateInformation(
+            self.__state_format, state_section, num_delay_taps, num_frequency_bins
         )
 
-        return ChannelStateInformation(self.__state_format, state_section, num_delay_taps)
+    @staticmethod
+    def __section_slices(
+        section: SupportsIndex | slice | Tuple[SupportsIndex | slice, ...],
+    ) -> Tuple[slice, ...]:
+        """Convert indices to slices, so that sections remain four-dimensional.
+
+        Args:
+            section: Section of the channel state.
+
+        Returns: Tuple of slices.
+        """
+
+        slices: List[slice] = []
+        for s in section if isinstance(section, tuple) else (section,):
+            if isinstance(s, SupportsIndex):
+                index = s.__index__()
+                slices.append(slice(index, index + 1 if index != -1 else None))
+
+            else:
+                slices.append(s)
+
+        return tuple(slices)
 
     def __setitem__(
         self,
@@ -462,22 +490,31 @@ class ChannelStateInformation(Serializable):
         if value.state_format != self.__state_format:
             raise NotImplementedError("Setting CSIs of a different type is not yet supported")
 
-        self.__state[key] = value.__state
+        self.__state[self.__section_slices(key)] = value.__state
 
     @staticmethod
     def concatenate(
         elements: List[ChannelStateInformation], dimension: ChannelStateDimension
     ) -> ChannelStateInformation:
         states = [element.__state for element in elements]
+
+        # Mixtures of sparse and dense states can only be represented by a dense state
+        if not all(isinstance(state, SparseArray) for state in states):
+            states = [element.dense_state() for element in elements]
+
         stack = np.concatenate(states, axis=dimension.value)
 
         # ToDo: Make this smarter, it's not generally correct
         state_format = (
             elements[0].__state_format if len(elements) > 0 else ChannelStateFormat.IMPULSE_RESPONSE
         )
-        num_delay_taps = elements[0].__num_delay_taps if len(elements) > 0 else None
+        num_delay_taps, num_frequency_bins = (
+            (elements[0].__num_delay_taps, elements[0].__num_frequency_bins)
+            if len(elements) > 0 and dimension != ChannelStateDimension.INFORMATION
+            else (None, None)
+        )
 
-        return ChannelStateInformation(state_format, stack, num_delay_taps)
+        return ChannelStateInformation(state_format, stack, num_delay_taps, num_frequency_bins)
 
     def plot(self) -> None:
         """Visualize the internal channel state information.
@@ -503,8 +540,14 @@ class ChannelStateInformation(Serializable):
         """
 
         # Make sure the accessed state is in impulse response format
-        state = self.to_impulse_response().dense_state()
-        _signal = signal.view(np.ndarray)
+        state = (
+            ChannelStateInformation(
+                self.__state_format, self.__state, self.__num_delay_taps, self.__num_frequency_bins
+            )
+            .to_impulse_response()
+            .dense_state()
+        )
+        _signal = signal.to_dense().view(np.ndarray)
 
         # Propagate the signal
         propagated_signal = DenseSignal.Zeros(
@@ -516,14 +559,15 @@ class ChannelStateInformation(Serializable):
             signal.delay,
         )
 
+        propagated_samples = propagated_signal.view(np.ndarray)
         for delay_index in range(state.shape[3]):
             for tx_idx, rx_idx in product(range(state.shape[1]), range(state.shape[0])):
                 delayed_signal = (
                     state[rx_idx, tx_idx, : signal.num_samples, delay_index] * _signal[tx_idx, :]
                 )
-                propagated_signal[  # type: ignore
+                propagated_samples[
                     rx_idx, delay_index : delay_index + signal.num_samples
-                ] += delayed_signal  # type: ignore
+                ] += delayed_signal
 
         return propagated_signal
 
@@ -541,6 +585,8 @@ class ChannelStateInformation(Serializable):
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_integer(self.__state_format.value, "state_format")
         process.serialize_array(self.dense_state(), "state", cache=False)
+        process.serialize_integer(self.__num_delay_taps, "num_delay_taps")
+        process.serialize_integer(self.__num_frequency_bins, "num_frequency_bins")
 
     @classmethod
     def Deserialize(
@@ -548,4 +594,9 @@ class ChannelStateInformation(Serializable):
     ) -> ChannelStateInformation:
         state_format = ChannelStateFormat(process.deserialize_integer("state_format"))
         state = process.deserialize_array("state", np.complex128)
-        return cls(state_format, state)
+        return cls(
+            state_format,
+            state,
+            process.deserialize_integer("num_delay_taps", None),
+            process.deserialize_integer("num_frequency_bins", None),
+        )
-- 
2.43.0


From e1fdfb784e1cf36942e13115599e9c0c1427f51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 012/138] fix: channel samples propagate every signal block as
 their reported state announces, with the configured gain and reciprocal
 polarization

---
 hermespy/channel/cdl/cluster_delay_lines.py | 48 +++++++++++++--------
 hermespy/channel/channel.py                 | 15 ++++---
 hermespy/channel/delay/delay.py             |  4 +-
 hermespy/channel/fading/fading.py           | 38 +++++++++-------
 hermespy/channel/ideal.py                   |  2 +-
 hermespy/channel/radar/multi.py             |  6 +--
 hermespy/channel/radar/radar.py             |  7 +--
 7 files changed, 71 insertions(+), 49 deletions(-)

diff --git a/hermespy/channel/cdl/cluster_delay_lines.py b/hermespy/channel/cdl/cluster_delay_lines.py
index 22e98f7..3439c6f 100644
--- a/hermespy/channel/cdl/cluster_delay_lines.py
+++ b/hermespy/channel/cdl/cluster_delay_lines.py
@@ -407,7 +407,11 @@ class ClusterDelayLineSample(ChannelSample):
         return float(np.sum(self.cluster_powers))
 
     def __ray_impulse_generator(
-        self, sampling_rate: float, num_samples: int, center_frequency: float
+        self,
+        sampling_rate: float,
+        num_samples: int,
+        center_frequency: float,
+        first_sample: int = 0,
     ) -> Generator[Tuple[np.ndarray, np.ndarray, float], None, None]:
         """Sequential generation of individual ray impulse responses.
 
@@ -423,6 +427,9 @@ class ClusterDelayLineSample(ChannelSample):
 
            center_frequency:
                 Center frequency in Hertz.
+
+           first_sample:
+                Index of the first generated sample.
         """
 
         # First summand scaling of equation 7.5-30 in ETSI TR 138 901 v17.0.0
@@ -444,13 +451,19 @@ class ClusterDelayLineSample(ChannelSample):
         # Wavelength factor
         wavelength_factor = center_frequency / speed_of_light
         relative_velocity = self.receiver_velocity - self.transmitter_velocity
-        fast_fading = wavelength_factor * np.arange(num_samples) / sampling_rate
+        fast_fading = (
+            wavelength_factor * (first_sample + np.arange(num_samples)) / sampling_rate
+        )
 
         # Compute the cluster propagation parameters
         for subcluster_idx in range(0, virtual_num_clusters):
-            cluster_idx = int(subcluster_idx / 3) if subcluster_idx < 6 else subcluster_idx - 4
+            cluster_idx = (
+                subcluster_idx // 3
+                if subcluster_idx < 3 * num_split_clusters
+                else subcluster_idx - 2 * num_split_clusters
+            )
             ray_indices = (
-                ClusterDelayLineSample.subcluster_indices[cluster_idx]
+                ClusterDelayLineSample.subcluster_indices[subcluster_idx % 3]
                 if cluster_idx < num_split_clusters
                 else range(self.num_rays)
             )
@@ -512,9 +525,9 @@ class ClusterDelayLineSample(ChannelSample):
             los_delay: float = self.cluster_delays[0]
             los_channel: np.ndarray = (
                 rx_array_response
-                @ np.array([[1, 0], [-1, 0]])
+                @ np.array([[1, 0], [0, -1]])
                 @ tx_array_response.T
-                * (rice_factor_lin / (1 + rice_factor_lin)) ** 0.5
+                * (rice_factor_lin / (1 + rice_factor_lin) * np.sum(self.cluster_powers)) ** 0.5
             )
             los_impulse: np.ndarray = np.exp(-2j * pi * los_distance * wavelength_factor) * np.exp(
                 np.inner(rx_wave_vector, relative_velocity) * fast_fading * 2j * pi
@@ -542,13 +555,12 @@ class ClusterDelayLineSample(ChannelSample):
         )[0]
 
         for channel, impulse, delay in self.__ray_impulse_generator(
-            self.bandwidth, signal.num_samples, self.carrier_frequency
+            self.bandwidth, signal.num_samples, self.carrier_frequency, signal.offset
         ):
-            if interpolation == InterpolationMode.NEAREST:
-                delay_in_samples = int((delay + self.delay_offset) * self.bandwidth)
-                propagated_samples[
-                    :, delay_in_samples : delay_in_samples + signal.num_samples
-                ] += np.einsum(einsum_subscripts, channel, signal, impulse, optimize=einsum_path)
+            delay_in_samples = int((delay + self.delay_offset) * self.bandwidth)
+            propagated_samples[
+                :, delay_in_samples : delay_in_samples + signal.num_samples
+            ] += np.einsum(einsum_subscripts, channel, signal, impulse, optimize=einsum_path)
 
         return SignalBlock(
             propagated_samples.shape[0],
@@ -564,13 +576,13 @@ class ClusterDelayLineSample(ChannelSample):
         max_num_taps: int,
         interpolation_mode: InterpolationMode = InterpolationMode.NEAREST,
     ) -> ChannelStateInformation:
-        max_delay_in_samples = min(max_num_taps, ceil(self.max_delay * self.bandwidth))
+        num_taps = min(max_num_taps, 1 + ceil(self.max_delay * self.bandwidth))
         raw_state = np.zeros(
             (
                 self.num_receive_antennas,
                 self.num_transmit_antennas,
                 num_samples,
-                1 + max_delay_in_samples,
+                num_taps,
             ),
             dtype=np.complex128,
         )
@@ -751,7 +763,7 @@ class ClusterDelayLineSample(ChannelSample):
             self.cluster_delays,
             self.cluster_delay_spread,
             self.cluster_powers,
-            self.polarization_transformations,
+            self.polarization_transformations.swapaxes(0, 1),
             state,
         )
 
@@ -1993,9 +2005,9 @@ class ClusterDelayLineRealization(ChannelRealization[ClusterDelayLineSample], Ge
         else:
             oxygen_loss = 1.0
 
-        # Compute the expected amplitude scale factor of the sample
-        expected_loss = self.gain * oxygen_loss
-        true_cluster_powers = cluster_powers * path_power_scale * expected_loss**2
+        # Compute the expected power scale factor of the sample
+        expected_loss = self.gain * oxygen_loss**2
+        true_cluster_powers = cluster_powers * path_power_scale * expected_loss
 
         return ClusterDelayLineSample(
             state.line_of_sight,
diff --git a/hermespy/channel/channel.py b/hermespy/channel/channel.py
index d5e93c1..beced77 100644
--- a/hermespy/channel/channel.py
+++ b/hermespy/channel/channel.py
@@ -535,8 +535,8 @@ class ChannelRealization(Serializable, Generic[CST]):
         *args,
         **kwargs,
     ) -> CST:
-        carrier_frequency = float(args[0]) if len(args) > 0 else None
-        bandwidth = float(args[1]) if len(args) > 1 else None
+        carrier_frequency = args[0] if len(args) > 0 else kwargs.get("carrier_frequency")
+        bandwidth = args[1] if len(args) > 1 else kwargs.get("bandwidth")
 
         from hermespy.simulation import SimulatedDevice, SimulatedDeviceState
 
@@ -656,9 +656,9 @@ class ChannelRealization(Serializable, Generic[CST]):
         receiver_device: SimulatedDevice | int
 
         if isinstance(transmitter, SimulatedDevice) and isinstance(receiver, SimulatedDevice):
-            timestamp = float(args[0]) if len(args) > 0 else 0.0
-            carrier_frequency = float(args[1]) if len(args) > 1 else None
-            bandwidth = float(args[2]) if len(args) > 2 else None
+            timestamp = float(args[0]) if len(args) > 0 else kwargs.get("timestamp", 0.0)
+            carrier_frequency = args[1] if len(args) > 1 else kwargs.get("carrier_frequency")
+            bandwidth = args[2] if len(args) > 2 else kwargs.get("bandwidth")
 
             transmitter_device = transmitter
             receiver_device = receiver
@@ -669,8 +669,8 @@ class ChannelRealization(Serializable, Generic[CST]):
             receiver, SimulatedDeviceState
         ):
             timestamp = sample.time
-            carrier_frequency = float(args[0]) if len(args) > 0 else None
-            bandwidth = float(args[1]) if len(args) > 1 else None
+            carrier_frequency = args[0] if len(args) > 0 else kwargs.get("carrier_frequency")
+            bandwidth = args[1] if len(args) > 1 else kwargs.get("bandwidth")
 
             transmitter_device = transmitter.device_id
             receiver_device = receiver.device_id
@@ -761,6 +761,7 @@ class Channel(ABC, RandomNode, Serializable, Generic[CRT, CST]):
         self.gain = gain
         self.__scenario = None
         self.__sample_hooks = set()
+        self.__last_realization = None
 
     @property
     def scenario(self) -> SimulationScenario | None:
diff --git a/hermespy/channel/delay/delay.py b/hermespy/channel/delay/delay.py
index ce0496f..e498353 100644
--- a/hermespy/channel/delay/delay.py
+++ b/hermespy/channel/delay/delay.py
@@ -74,7 +74,7 @@ class DelayChannelSample(ChannelSample):
 
     @property
     def expected_energy_scale(self) -> float:
-        return self.__path_gain(self.carrier_frequency)
+        return self.__path_gain(self.carrier_frequency) ** 2
 
     def __spatial_response(self) -> np.ndarray:
 
@@ -108,7 +108,7 @@ class DelayChannelSample(ChannelSample):
         Returns: Linear path gain scaling the amplitude of a propagated signal.
         """
 
-        gain_factor = self.gain
+        gain_factor = self.gain**0.5
 
         if self.model_propagation_loss:
             if carrier_frequency == 0.0:
diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index befbf8a..ae6f472 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -291,14 +291,14 @@ class MultipathFadingSample(ChannelSample):
         return self.gain * np.sum(self.power_profile)
 
     def __path_impulse_generator(
-        self, num_samples: int
+        self, num_samples: int, first_sample: int = 0
     ) -> Generator[Tuple[np.ndarray, int], None, None]:
 
         path_delay_samples = np.rint(self.delay_profile * self.bandwidth).astype(int)
 
         num_sinusoids = self.__nlos_angles.shape[1]
         n = 1 + np.arange(num_sinusoids)
-        timestamps = np.arange(num_samples) / self.bandwidth
+        timestamps = (first_sample + np.arange(num_samples)) / self.bandwidth
 
         nlos_time = self.nlos_doppler * timestamps
         los_time = self.los_doppler * timestamps
@@ -352,7 +352,7 @@ class MultipathFadingSample(ChannelSample):
         siso_csi = np.zeros((num_samples, num_taps), dtype=np.complex128)
         for path_impulse, path_delay_samples in self.__path_impulse_generator(num_samples):
             # Skip paths with delays larger than the maximum delay required by the CSI request
-            if path_delay_samples > num_taps:
+            if path_delay_samples >= num_taps:
                 continue
 
             siso_csi[:, path_delay_samples] += path_impulse
@@ -360,7 +360,12 @@ class MultipathFadingSample(ChannelSample):
         # For the multipath fading model, the MIMO CSI is the outer product of the SISO CSI with the spatial response
         # The resulting multidimensional array is sparse in its fourth dimension and converted to a GCXS array for memory efficiency
         mimo_csi = GCXS.from_numpy(
-            np.einsum("ij,kl->ijkl", self.spatial_response, siso_csi), compressed_axes=(0, 1, 2)
+            np.einsum(
+                "ij,kl->ijkl",
+                self.spatial_response[: self.num_receive_antennas, : self.num_transmit_antennas],
+                siso_csi,
+            ),
+            compressed_axes=(0, 1, 2),
         )
 
         state = ChannelStateInformation(
@@ -383,7 +388,7 @@ class MultipathFadingSample(ChannelSample):
                 (_spatial_response.shape[1], num_propagated_samples), dtype=np.complex128
             )
             for path_impulse, path_num_delay_samples in self.__path_impulse_generator(
-                signal.num_samples
+                signal.num_samples, signal.offset
             ):
                 propagated_samples[
                     :, path_num_delay_samples : path_num_delay_samples + signal.num_samples
@@ -478,11 +483,13 @@ class MultipathFadingRealization(ChannelRealization[MultipathFadingSample]):
         )[: state.receiver.antennas.num_antennas, : state.transmitter.antennas.num_antennas]
 
         if self.__antenna_correlation is not None:
-            spatial_response = (
+            num_rx = state.receiver.antennas.num_receive_antennas
+            num_tx = state.transmitter.antennas.num_transmit_antennas
+            spatial_response[:num_rx, :num_tx] = (
                 self.__antenna_correlation.sample_covariance(
                     state.receiver.antennas, AntennaMode.RX
                 )
-                @ spatial_response
+                @ spatial_response[:num_rx, :num_tx]
                 @ self.__antenna_correlation.sample_covariance(
                     state.transmitter.antennas, AntennaMode.TX
                 )
@@ -544,7 +551,7 @@ class MultipathFadingRealization(ChannelRealization[MultipathFadingSample]):
             self.__antenna_correlation_variable, "antenna_correlation_variable"
         )
         if isinstance(self.__los_angles_variable, float):
-            process.serialize_floating(self.__los_angles_variable, "los_angles_variable")
+            process.serialize_floating(self.__los_angles_variable, "los_angle")
         else:
             process.serialize_object(self.__los_angles_variable, "los_angles_variable")
         process.serialize_object(self.__path_angles_variable, "path_angles_variable")
@@ -563,10 +570,15 @@ class MultipathFadingRealization(ChannelRealization[MultipathFadingSample]):
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> MultipathFadingRealization:
+        los_angle = process.deserialize_floating("los_angle", None)
         return MultipathFadingRealization(
             process.deserialize_object("random_realization", ConsistentRealization),
             process.deserialize_object("antenna_correlation_variable", ConsistentUniform),
-            process.deserialize_object("los_angles_variable", ConsistentUniform),
+            (
+                process.deserialize_object("los_angles_variable", ConsistentUniform)
+                if los_angle is None
+                else los_angle
+            ),
             process.deserialize_object("path_angles_variable", ConsistentUniform),
             process.deserialize_object("los_phases_variable", ConsistentUniform),
             process.deserialize_object("path_phases_variable", ConsistentUniform),
@@ -740,11 +752,7 @@ class MultipathFadingChannel(
         # Note: This is a temporary solution,
         # since the configuration class is unaware of the devices' number of antennas.
         self.__antenna_correlation_variable = self.__rng.uniform((10, 10))
-        self.__los_angles_variable = (
-            self.__rng.uniform((self.__num_resolvable_paths,))
-            if self.__los_angle is not None
-            else self.__los_angle
-        )
+        self.__los_angles_variable = self.__rng.uniform((self.__num_resolvable_paths,))
         self.__nlos_angles_variable = self.__rng.uniform(
             (self.num_resolvable_paths, self.__num_sinusoids)
         )
@@ -894,7 +902,7 @@ class MultipathFadingChannel(
         return MultipathFadingRealization(
             self.__rng.realize(self.correlation_distance),
             self.__antenna_correlation_variable,
-            self.__los_angles_variable,
+            self.__los_angles_variable if self.los_angle is None else float(self.los_angle),
             self.__nlos_angles_variable,
             self.__los_phases_variable,
             self.__nlos_phases_variable,
diff --git a/hermespy/channel/ideal.py b/hermespy/channel/ideal.py
index ce30de7..c4190d7 100644
--- a/hermespy/channel/ideal.py
+++ b/hermespy/channel/ideal.py
@@ -112,7 +112,7 @@ class IdealChannelSample(ChannelSample):
                 )
 
         # Apply channel gain
-        propagated_samples *= np.sqrt(self.__gain)
+        propagated_samples = np.sqrt(self.__gain) * propagated_samples
         return SignalBlock(
             self.num_receive_antennas,
             signal.num_samples,
diff --git a/hermespy/channel/radar/multi.py b/hermespy/channel/radar/multi.py
index 5c642cf..c471521 100644
--- a/hermespy/channel/radar/multi.py
+++ b/hermespy/channel/radar/multi.py
@@ -353,7 +353,7 @@ class MultiTargetRadarChannelRealization(RadarChannelRealization):
         # Initialize class attributes
         self.__consistent_realization = consistent_realization
         self.__phase_variable = phase_variable
-        self.__targets = targets
+        self.__targets = set(targets)
         self.__interference = interference
         self.__attenuate = attenuate
 
@@ -379,8 +379,8 @@ class MultiTargetRadarChannelRealization(RadarChannelRealization):
 
         # Query target global coordiante system transformations
         trajectory_sample = target.sample_trajectory(state.time)
-        target_backwards_transform = trajectory_sample.pose
-        target_forwards_transform = trajectory_sample.pose.invert()
+        target_forwards_transform = trajectory_sample.pose
+        target_backwards_transform = trajectory_sample.pose.invert()
 
         # Make sure the transmitter / receiver positions don't collide with target locations
         # This implicitly violates the far-field assumption and leads to numeric instabilities
diff --git a/hermespy/channel/radar/radar.py b/hermespy/channel/radar/radar.py
index 90ee65a..f0d49ca 100644
--- a/hermespy/channel/radar/radar.py
+++ b/hermespy/channel/radar/radar.py
@@ -394,7 +394,8 @@ class RadarPath(Serializable):
         # ToDo: Exact time of flight resampling
         # echo_timestamps = propagation_delay + 2 * relative_velocity * signal.timestamps / speed_of_light
         # echo_weights = np.exp(2j * pi * (doppler_shift * echo_timestamps))
-        echo_weights = np.exp(2j * pi * (doppler_shift * (timestamp + np.arange(signal.shape[1]) / bandwidth)))
+        block_timestamps = timestamp + (signal.offset + np.arange(signal.shape[1])) / bandwidth
+        echo_weights = np.exp(2j * pi * (doppler_shift * block_timestamps))
 
         propagated_samples[
             :, delay_sample_offset : delay_sample_offset + signal.shape[1]
@@ -635,10 +636,10 @@ class RadarInterferencePath(RadarPath):
     ) -> np.ndarray:
         # Model the sensor arrays' spatial responses
         rx_response = receiver.antennas.cartesian_array_response(
-            carrier_frequency, transmitter.position, "global"
+            carrier_frequency, transmitter.position, "global", AntennaMode.RX
         )
         tx_response = transmitter.antennas.cartesian_array_response(
-            carrier_frequency, receiver.position, "global"
+            carrier_frequency, receiver.position, "global", AntennaMode.TX
         )
 
         if self.attenuate:
-- 
2.43.0


From bafac12b2305b2f035faf2d570a900d61d832011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 013/138] fix: merge overlapping propagated signal blocks and
 apply the channel gain to CDL samples

---
 hermespy/channel/cdl/cdl.py |  2 +-
 hermespy/channel/channel.py | 22 +++++++++++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/hermespy/channel/cdl/cdl.py b/hermespy/channel/cdl/cdl.py
index f0cced9..be77d00 100644
--- a/hermespy/channel/cdl/cdl.py
+++ b/hermespy/channel/cdl/cdl.py
@@ -229,7 +229,7 @@ class CDLRealization(ChannelRealization[ClusterDelayLineSample]):
         parameters = CDL_Cluster_Parameters[self.__type]
         per_cluster_parameters = CDL_Per_Cluster_Parameters[self.__type.value, :]
         normalized_cluster_delays = parameters[:, 0]
-        cluster_powers = 10 ** (parameters[:, 1] / 10)
+        cluster_powers = self.gain * 10 ** (parameters[:, 1] / 10)
         cluster_aods = parameters[:, 2]
         cluster_aoas = parameters[:, 3]
         cluster_zods = parameters[:, 4]
diff --git a/hermespy/channel/channel.py b/hermespy/channel/channel.py
index beced77..f3e7d9b 100644
--- a/hermespy/channel/channel.py
+++ b/hermespy/channel/channel.py
@@ -367,7 +367,27 @@ class ChannelSample(object):
             )
 
         # Propagate each signal block
-        propagated_blocks = [self._propagate(b, interpolation_mode) for b in _signal.blocks]
+        propagated_blocks: list[SignalBlock] = []
+        for block in _signal.blocks:
+            propagated_block = self._propagate(block, interpolation_mode)
+
+            # Delayed samples of the previous block may reach into the current block
+            if propagated_blocks and propagated_blocks[-1].end > propagated_block.offset:
+                previous_block = propagated_blocks.pop()
+                start = propagated_block.offset - previous_block.offset
+                stop = start + propagated_block.num_samples
+                samples = np.zeros(
+                    (propagated_block.num_streams, max(stop, previous_block.num_samples)),
+                    dtype=np.complex128,
+                )
+                samples[:, : previous_block.num_samples] = previous_block.view(np.ndarray)
+                samples[:, start:stop] += propagated_block.view(np.ndarray)
+                propagated_block = SignalBlock(
+                    samples.shape[0], samples.shape[1], previous_block.offset, samples.tobytes()
+                )
+
+            propagated_blocks.append(propagated_block)
+
         block_offsets = [b.offset for b in propagated_blocks]
         return Signal.Create(
             propagated_blocks,
-- 
2.43.0


From 940f0724b9630436df2ec1a73c85dd2718b28c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:05 +0000
Subject: [PATCH 014/138] fix: resources without prefix do not reserve
 undefined prefix samples

---
 hermespy/modem/waveforms/orthogonal/waveform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hermespy/modem/waveforms/orthogonal/waveform.py b/hermespy/modem/waveforms/orthogonal/waveform.py
index b37cb3e..eca376c 100644
--- a/hermespy/modem/waveforms/orthogonal/waveform.py
+++ b/hermespy/modem/waveforms/orthogonal/waveform.py
@@ -631,7 +631,9 @@ class SymbolSection(GridSection["OrthogonalWaveform"]):
 
         # Add up the additional samples from cyclic prefixes
         for resource_idx in self.pattern:
-            num += int(num_samples_per_slot * self.wave.grid_resources[resource_idx].prefix_ratio)
+            resource = self.wave.grid_resources[resource_idx]
+            if resource.prefix_type != PrefixType.NONE:
+                num += int(num_samples_per_slot * resource.prefix_ratio)
 
         # Add up the base samples from each timeslot
         return num * self.num_repetitions
-- 
2.43.0


From 1dfefd6ac515252ae662c0c9d0271bb2a04e58cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:05 +0000
Subject: [PATCH 015/138] fix: cached pilot sections follow changes of their
 symbols and waveform

---
 hermespy/modem/waveforms/orthogonal/waveform.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hermespy/modem/waveforms/orthogonal/waveform.py b/hermespy/modem/waveforms/orthogonal/waveform.py
index eca376c..6f6d0d0 100644
--- a/hermespy/modem/waveforms/orthogonal/waveform.py
+++ b/hermespy/modem/waveforms/orthogonal/waveform.py
@@ -725,6 +725,8 @@ class PilotSection(Generic[OWT], GridSection[OWT], Serializable):
     __cached_num_subcarriers: int
     __cached_oversampling_factor: int
     __cached_pilot: np.ndarray | None
+    __cached_symbols: np.ndarray | None
+    __cached_dc_suppression: bool
 
     def __init__(self, pilot_elements: Symbols | None = None, wave: OWT | None = None) -> None:
         """
@@ -746,6 +748,8 @@ class PilotSection(Generic[OWT], GridSection[OWT], Serializable):
         self.__cached_num_subcarriers = -1
         self.__cached_oversampling_factor = -1
         self.__cached_pilot = None
+        self.__cached_symbols = None
+        self.__cached_dc_suppression = False
 
     @GridSection.num_repetitions.setter  # type: ignore
     def num_repetitions(self, value: int) -> None:
@@ -807,6 +811,7 @@ class PilotSection(Generic[OWT], GridSection[OWT], Serializable):
     @pilot_elements.setter
     def pilot_elements(self, value: Symbols | None) -> None:
         if value is None:
+            self.__cached_pilot = None
             self.__pilot_elements = None
             return
 
@@ -875,18 +880,23 @@ class PilotSection(Generic[OWT], GridSection[OWT], Serializable):
             raise RuntimeError("Pilot section must be associated with a waveform")
 
         # Return the cached pilot signal if available and the relevant frame parameters haven't changed
+        dc_suppression = getattr(self.wave, "dc_suppression", False)
+        pilot_symbols = self._pilot_sequence(self.wave.num_subcarriers)
         if (
             self.__cached_pilot is not None
             and self.__cached_num_subcarriers == self.wave.num_subcarriers
             and self.__cached_oversampling_factor == oversampling_factor
+            and self.__cached_dc_suppression == dc_suppression
+            and np.array_equal(self.__cached_symbols, pilot_symbols)
         ):
             return self.__cached_pilot
 
-        pilot_symbols = self._pilot_sequence(self.wave.num_subcarriers)
         pilot = self.wave._forward_transformation(pilot_symbols[np.newaxis, :], oversampling_factor)
 
         # Cache the pilot
         self.__cached_pilot = pilot
+        self.__cached_symbols = pilot_symbols
+        self.__cached_dc_suppression = dc_suppression
         self.__cached_num_subcarriers = self.wave.num_subcarriers
         self.__cached_oversampling_factor = oversampling_factor
 
-- 
2.43.0


From 8f1aca0a6c85b2cf7f72ddfa9ffacfe340fe552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 016/138] fix: sample offsets are corrected in their own
 section and for the last subcarrier

---
 hermespy/modem/waveforms/orthogonal/ofdm.py     | 8 ++++----
 hermespy/modem/waveforms/orthogonal/waveform.py | 1 +
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/hermespy/modem/waveforms/orthogonal/ofdm.py b/hermespy/modem/waveforms/orthogonal/ofdm.py
index 7a83659..2ef6a4d 100644
--- a/hermespy/modem/waveforms/orthogonal/ofdm.py
+++ b/hermespy/modem/waveforms/orthogonal/ofdm.py
@@ -166,14 +166,14 @@ class OFDMWaveform(OrthogonalWaveform, Serializable):
         frame_start_idx = (
             oversampling_factor * self.num_subcarriers
         ) // 2 - self.num_subcarriers // 2
-        freqs = fftshift(fftfreq(oversampling_factor * self.num_subcarriers))[
-            frame_start_idx : frame_start_idx + self.num_subcarriers
-        ]
+        freqs = fftshift(fftfreq(oversampling_factor * self.num_subcarriers))
 
         if self.dc_suppression:
-            dc_index = int(0.5 * symbol_subgrid.shape[1])
+            dc_index = int(0.5 * self.num_subcarriers * oversampling_factor)
             freqs[dc_index:] = np.roll(freqs[dc_index:], -1)
 
+        freqs = freqs[frame_start_idx : frame_start_idx + self.num_subcarriers]
+
         return symbol_subgrid * np.exp(2j * np.pi * freqs * sample_offset)
 
     @override
diff --git a/hermespy/modem/waveforms/orthogonal/waveform.py b/hermespy/modem/waveforms/orthogonal/waveform.py
index 6f6d0d0..befa75e 100644
--- a/hermespy/modem/waveforms/orthogonal/waveform.py
+++ b/hermespy/modem/waveforms/orthogonal/waveform.py
@@ -1372,6 +1372,7 @@ class OrthogonalWaveform(ConfigurablePilotWaveform, ABC):
                         oversampling_factor,
                     )
                 )
+            block_idx += section.num_words
 
         return Symbols(symbol_grid[np.newaxis, :, :])
 
-- 
2.43.0


From fd757b0ac39923e51b71f7c2aa412ab84bb734c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 017/138] fix: chirp FSK guard intervals are silent instead of
 uninitialized

---
 hermespy/modem/waveform_chirp_fsk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/modem/waveform_chirp_fsk.py b/hermespy/modem/waveform_chirp_fsk.py
index b170ea5..e219df5 100644
--- a/hermespy/modem/waveform_chirp_fsk.py
+++ b/hermespy/modem/waveform_chirp_fsk.py
@@ -295,7 +295,7 @@ class ChirpFSKWaveform(PilotCommunicationWaveform):
             self.freq_difference,
             samples_in_chirp,
         )
-        frame_samples = np.empty(
+        frame_samples = np.zeros(
             self.samples_per_frame(bandwidth, oversampling_factor), dtype=complex
         )
 
-- 
2.43.0


From 43991ae2aeb51bcf8a5e781b10b1b329baf3e021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 018/138] fix: pulses of odd filter length are sampled at the
 sampling rate

---
 hermespy/modem/waveform_single_carrier.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/hermespy/modem/waveform_single_carrier.py b/hermespy/modem/waveform_single_carrier.py
index 9f3ce05..c7b1d7c 100644
--- a/hermespy/modem/waveform_single_carrier.py
+++ b/hermespy/modem/waveform_single_carrier.py
@@ -786,11 +786,9 @@ class RootRaisedCosineWaveform(RolledOffSingleCarrierWaveform, Serializable):
 
         # Generate timestamps
         time = (
-            np.linspace(
-                -int(0.5 * self.filter_length),
-                int(0.5 * self.filter_length),
-                self.filter_length * oversampling_factor,
-                endpoint=(self.filter_length % 2 == 1),
+            (
+                np.arange(self.filter_length * oversampling_factor) / oversampling_factor
+                - int(0.5 * self.filter_length)
             )
             * self.relative_bandwidth
         )
@@ -834,11 +832,9 @@ class RaisedCosineWaveform(RolledOffSingleCarrierWaveform, Serializable):
 
         # Generate timestamps
         time = (
-            np.linspace(
-                -int(0.5 * self.filter_length),
-                int(0.5 * self.filter_length),
-                self.filter_length * oversampling_factor,
-                endpoint=(self.filter_length % 2 == 1),
+            (
+                np.arange(self.filter_length * oversampling_factor) / oversampling_factor
+                - int(0.5 * self.filter_length)
             )
             * self.relative_bandwidth
         )
-- 
2.43.0


From 47fd035dd384916fccc5b658750cad91c9eac4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 019/138] fix: FMCW waveforms announce the pilot signal and
 frame duration they modulate

---
 hermespy/modem/waveform_single_carrier.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/hermespy/modem/waveform_single_carrier.py b/hermespy/modem/waveform_single_carrier.py
index c7b1d7c..f7ea931 100644
--- a/hermespy/modem/waveform_single_carrier.py
+++ b/hermespy/modem/waveform_single_carrier.py
@@ -927,6 +927,28 @@ class FMCWWaveform(FilteredSingleCarrierWaveform, Serializable):
 
         self.__num_samples_per_chirp = value
 
+    @override
+    def frame_duration(self, bandwidth: float) -> float:
+        return self._num_frame_symbols * self.num_samples_per_chirp / bandwidth
+
+    @override
+    def pilot_signal(self, bandwidth: float, oversampling_factor: int) -> Signal:
+        if self.num_preamble_symbols < 1:
+            return Signal.Empty(bandwidth * oversampling_factor, 1, 0)
+
+        samples_per_chirp = oversampling_factor * self.num_samples_per_chirp
+        pilot_symbols = np.zeros(
+            1 + (self.num_preamble_symbols - 1) * samples_per_chirp, dtype=np.complex128
+        )
+        pilot_symbols[::samples_per_chirp] = self.pilot_symbols(self.num_preamble_symbols)
+
+        return Signal.Create(
+            np.convolve(pilot_symbols, self._transmit_filter(oversampling_factor))
+            .astype(np.complex128)
+            .reshape((1, -1)),
+            bandwidth * oversampling_factor,
+        )
+
     @override
     def samples_per_frame(self, bandwidth: float, oversampling_factor: int) -> int:
         return self._num_frame_symbols * self.num_samples_per_chirp * oversampling_factor
-- 
2.43.0


From 2dc2c6a1dd917ff0afc37b13d17732d65bf6eb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 020/138] fix: correlation synchronization applies its
 configured threshold and guard ratio

---
 hermespy/modem/waveform_correlation_synchronization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hermespy/modem/waveform_correlation_synchronization.py b/hermespy/modem/waveform_correlation_synchronization.py
index 53a495a..66c7a3f 100644
--- a/hermespy/modem/waveform_correlation_synchronization.py
+++ b/hermespy/modem/waveform_correlation_synchronization.py
@@ -148,7 +148,9 @@ class CorrelationSynchronization(Generic[PGT], Synchronization[PGT]):
         # Determine the pilot sequence locations by performing a peak search over the correlation profile
         frame_length = self.waveform.samples_per_frame(bandwidth, oversampling_factor)
         pilot_indices, _ = find_peaks(
-            abs(correlation), height=0.9, distance=int(0.8 * frame_length)
+            abs(correlation),
+            height=self.threshold,
+            distance=max(1, int(self.guard_ratio * frame_length)),
         )
 
         # Abort if no pilot section has been detected
-- 
2.43.0


From be7cf11f254041671dafe231372d312f907680a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:08 +0000
Subject: [PATCH 021/138] fix: raised cosine pulses tolerate rounding at their
 removable singularities

---
 hermespy/modem/waveform_single_carrier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/modem/waveform_single_carrier.py b/hermespy/modem/waveform_single_carrier.py
index f7ea931..0df531e 100644
--- a/hermespy/modem/waveform_single_carrier.py
+++ b/hermespy/modem/waveform_single_carrier.py
@@ -798,7 +798,7 @@ class RootRaisedCosineWaveform(RolledOffSingleCarrierWaveform, Serializable):
 
         if self.roll_off != 0:
             # indices with division by zero
-            idx_x_by_0 = abs(time) == 1 / (4 * self.roll_off)
+            idx_x_by_0 = np.isclose(abs(time), 1 / (4 * self.roll_off), rtol=1e-8, atol=0.0)
         else:
             idx_x_by_0 = np.zeros_like(time, dtype=bool)
         idx = (~idx_0_by_0) & (~idx_x_by_0)
@@ -842,7 +842,7 @@ class RaisedCosineWaveform(RolledOffSingleCarrierWaveform, Serializable):
         # Build filter response
         if self.roll_off != 0:
             # indices with division of zero by zero
-            idx_0_by_0 = abs(time) == 1 / (2 * self.roll_off)
+            idx_0_by_0 = np.isclose(abs(time), 1 / (2 * self.roll_off), rtol=1e-8, atol=0.0)
         else:
             idx_0_by_0 = np.zeros_like(time, dtype=bool)
         idx = ~idx_0_by_0
-- 
2.43.0


From 8413d6af57231d2751d66943d6dd75de1d51733a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 022/138] fix: the number of decoded blocks grows with the
 decoding rate

---
 hermespy/modem/precoding/symbol_precoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/modem/precoding/symbol_precoding.py b/hermespy/modem/precoding/symbol_precoding.py
index 2246002..9112944 100644
--- a/hermespy/modem/precoding/symbol_precoding.py
+++ b/hermespy/modem/precoding/symbol_precoding.py
@@ -217,6 +217,6 @@ class ReceiveSymbolCoding(ReceivePrecoding[ReceiveSymbolDecoder], Serializable):
         num_blocks = Fraction(num_input_blocks, 1)
 
         for precoder in reversed(self):
-            num_blocks /= precoder.decode_rate
+            num_blocks *= precoder.decode_rate
 
         return int(num_blocks)
-- 
2.43.0


From 62081bf1552d450ba9bded7c99d311a8ebb9f1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 023/138] fix: selection combining keeps the number of transmit
 streams of the channel state

---
 hermespy/modem/precoding/single_carrier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hermespy/modem/precoding/single_carrier.py b/hermespy/modem/precoding/single_carrier.py
index 5287c95..7ec8a29 100644
--- a/hermespy/modem/precoding/single_carrier.py
+++ b/hermespy/modem/precoding/single_carrier.py
@@ -42,7 +42,9 @@ class SingleCarrier(ReceiveSymbolDecoder, Serializable):
         new_symbols = np.take_along_axis(symbols.raw, antenna_selection[np.newaxis, ::], axis=0)
         # stream_noises = np.take_along_axis(symbols, antenna_selection.T, axis=0)
 
-        channel_state_selection = antenna_selection[np.newaxis, np.newaxis, ::].repeat(2, axis=1)
+        channel_state_selection = antenna_selection[np.newaxis, np.newaxis, ::].repeat(
+            dense_states.shape[1], axis=1
+        )
         new_states = np.take_along_axis(dense_states, channel_state_selection, axis=0)
 
         symbols.raw = new_symbols
-- 
2.43.0


From 0fe07eab53a62e7cf2da14800d057012d4e9c314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 024/138] fix: maximum ratio combining reports the unit channel
 state of its equalized symbols

---
 hermespy/modem/precoding/ratio_combining.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hermespy/modem/precoding/ratio_combining.py b/hermespy/modem/precoding/ratio_combining.py
index 42f402b..2baa1e7 100644
--- a/hermespy/modem/precoding/ratio_combining.py
+++ b/hermespy/modem/precoding/ratio_combining.py
@@ -46,11 +46,12 @@ class MaximumRatioCombining(ReceiveSymbolDecoder, Serializable):
         symbol_estimates = np.sum(simo_states.conj() * symbols_raw, axis=0, keepdims=True) / np.sum(
             np.abs(simo_states) ** 2, axis=0, keepdims=True
         )
-        state_estimates = np.sum(np.abs(dense_states) ** 2, axis=0)
         # resulting_noises = np.sum(stream_noises * (np.abs(stream_responses) ** 2), axis=0, keepdims=True)
 
         symbol_estimates = symbol_estimates.reshape((1, symbols.num_blocks, symbols.num_symbols))
-        state_estimates = state_estimates.reshape((1, 1, symbols.num_blocks, symbols.num_symbols))
+        state_estimates = np.ones(
+            (1, 1, symbols.num_blocks, symbols.num_symbols), dtype=np.complex128
+        )
         return StatedSymbols(symbol_estimates, state_estimates)
 
     def num_receive_output_streams(self, num_input_streams: int) -> int:
-- 
2.43.0


From b46910667b66911b3284854416c52d437a1fbfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:10 +0000
Subject: [PATCH 025/138] fix: anti-aliasing of short signals in
 radio-frequency blocks accounts for the filter's number of sections

---
 hermespy/simulation/rf/block.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hermespy/simulation/rf/block.py b/hermespy/simulation/rf/block.py
index e04281c..49aa4a4 100644
--- a/hermespy/simulation/rf/block.py
+++ b/hermespy/simulation/rf/block.py
@@ -212,13 +212,14 @@ class RFBlock(ABC, Generic[RFBRT], RandomNode, Serializable):
             )
 
             # Append zeros to the propagated signal if it is too short to be filtered with the anti-aliasing filter
-            if propagated_signal.num_samples < (antialiasing_filter_sos.shape[1] + 1) * 4:
+            # The forward-backward filter requires more samples than its default padding
+            min_num_samples = 3 * (2 * antialiasing_filter_sos.shape[0] + 1) + 1
+            if propagated_signal.num_samples < min_num_samples:
                 padded_samples = propagated_signal.append_samples(
                     np.zeros(
                         (
                             propagated_signal.num_streams,
-                            (antialiasing_filter_sos.shape[1] + 1) * 4
-                            - propagated_signal.num_samples,
+                            min_num_samples - propagated_signal.num_samples,
                         ),
                         dtype=np.complex128,
                     )
-- 
2.43.0


From b654e4ae5c41e18e7c3f4e91e02209485ac8d889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:23 +0000
Subject: [PATCH 026/138] fix: silent transmitters emit a base-band signal like
 any other operator

---
 hermespy/core/operators.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hermespy/core/operators.py b/hermespy/core/operators.py
index 7a0f88e..6f89b06 100644
--- a/hermespy/core/operators.py
+++ b/hermespy/core/operators.py
@@ -79,7 +79,6 @@ class SilentTransmitter(StaticOperator, Transmitter[Transmission], Serializable)
         silence = Signal.Create(
             np.zeros((state.num_transmit_dsp_ports, num_samples), dtype=complex),
             sampling_rate=state.sampling_rate,
-            carrier_frequency=state.carrier_frequency,
         )
 
         return Transmission(silence)
-- 
2.43.0


From 6dc7b921dda84aaf68545ceb1ef88c80991a706f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:23 +0000
Subject: [PATCH 027/138] fix: operator separation routes signals to the
 operators' selected ports

---
 hermespy/simulation/simulated_device.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 40b4f87..c5e0bf7 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -1643,21 +1643,20 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
         superimposed_dsp_output: Signal
 
         # If operator separation is enabled, each operator transmission is processed independetly
-        if self.operator_separation:
-            for t in operator_transmissions:
-                emerging_signal, leaking_signal = self._simulate_output(t.signal, _state)
-                emerging_signals.append(emerging_signal)
-                leaking_signals.append(leaking_signal)
+        # If operator separation is disabled, the transmissions are superimposed to a single signal model
+        routed_transmissions = list(zip(operator_transmissions, _operator_transmit_ports))
+        transmission_groups = (
+            [[t] for t in routed_transmissions]
+            if self.operator_separation
+            else [routed_transmissions]
+        )
 
-        # If operator separation is disable, the transmissions are superimposed to a single signal model
-        else:
+        for transmission_group in transmission_groups:
             superimposed_dsp_output = DenseSignal(
                 _state.num_transmit_dsp_ports, 0, _state.sampling_rate
             )
 
-            for transmission, stream_indices in zip(
-                operator_transmissions, _operator_transmit_ports
-            ):
+            for transmission, stream_indices in transmission_group:
                 if transmission:
                     superimposed_dsp_output = superimposed_dsp_output.superimpose(
                         transmission.signal, resample=resample, stream_indices=stream_indices
-- 
2.43.0


From e35b244c24273f728c96e675b4adb1f2028879cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:50 +0000
Subject: [PATCH 028/138] fix: carrier offsets of operator signals are
 independent of the operators' order

---
 hermespy/simulation/simulated_device.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index c5e0bf7..f18d418 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -1652,8 +1652,11 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
         )
 
         for transmission_group in transmission_groups:
-            superimposed_dsp_output = DenseSignal(
-                _state.num_transmit_dsp_ports, 0, _state.sampling_rate
+            # Empty signals adopt the parameters of the signals superimposed to them,
+            # while the carrier offsets of the operators are relative to the device's base-band
+            is_empty = all(not t or t.signal.num_samples < 1 for t, _ in transmission_group)
+            superimposed_dsp_output = DenseSignal.Zeros(
+                _state.num_transmit_dsp_ports, 0 if is_empty else 1, _state.sampling_rate
             )
 
             for transmission, stream_indices in transmission_group:
-- 
2.43.0


From 8cdc0ee391f08d5f224470826f9a48450467c232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 029/138] fix: receptions are aligned to trigger instants
 before and after the impinging signal

---
 hermespy/simulation/simulated_device.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index f18d418..64d2951 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -144,7 +144,7 @@ class TriggerRealization(Serializable):
                 f"Sampling rate must be greater or equal to zero (not {sampling_rate})"
             )
 
-        return int((self.trigger_delay - initial_delay) * sampling_rate)
+        return int(round((self.trigger_delay - initial_delay) * sampling_rate))
 
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_integer(self.num_offset_samples, "num_offset_samples")
@@ -1912,7 +1912,7 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
                 mixed_signal = mixed_signal.to_dense()
 
         # Correct the trigger realization
-        synchronized_signal = mixed_signal
+        synchronized_signal: Signal
         num_trigger_offset_samples = _trigger_realization.compute_num_offset_samples(
             self.sampling_rate, mixed_signal.delay
         )
@@ -1921,15 +1921,18 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
             synchronized_signal = mixed_signal[:, num_trigger_offset_samples:]
         elif num_trigger_offset_samples < 0:
             synchronized_signal = DenseSignal.Zeros(
-                signal.num_streams,
-                num_trigger_offset_samples,
-                signal.sampling_rate,
-                signal.carrier_frequency,
-                signal.noise_power,
-            ).append_samples(synchronized_signal)
+                mixed_signal.num_streams,
+                -num_trigger_offset_samples,
+                mixed_signal.sampling_rate,
+                mixed_signal.carrier_frequency,
+                mixed_signal.noise_power,
+                mixed_signal.delay,
+            ).append_samples(mixed_signal)
+        else:
+            synchronized_signal = mixed_signal.copy()
 
         synchronized_signal.delay = (
-            mixed_signal.delay - num_trigger_offset_samples * self.sampling_rate
+            mixed_signal.delay + num_trigger_offset_samples / self.sampling_rate
         )
 
         # Apply mutual coupling model during signal reception
-- 
2.43.0


From 0faacfc50919735ead25fcefd579ed086cbdb767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 030/138] fix: normal triggers drawing negative offsets don't
 abort the simulation

---
 hermespy/simulation/simulated_device.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 64d2951..186fe6d 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -464,7 +464,8 @@ class NormalTrigger(TriggerModel):
         # Select the proper random number generator
         _rng = self._rng if rng is None else rng
 
-        trigger_delay = int(_rng.normal(loc=self.mean, scale=self.std) * sampling_rate)
+        # The trigger can't occur before the drop start
+        trigger_delay = max(0, int(_rng.normal(loc=self.mean, scale=self.std) * sampling_rate))
         return TriggerRealization(trigger_delay, sampling_rate)
 
     @override
-- 
2.43.0


From 96a804be2f80ad97aa53daace0f64beea3b204cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 031/138] fix: all leaking signals of a device are considered
 during reception

---
 hermespy/simulation/simulated_device.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 186fe6d..7b78e1f 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -1943,10 +1943,14 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
         antenna_outputs = self.antennas.receive(coupled_signal)
 
         # Model the configured antenna array's input behaviour
-        # Hack: Only consider the first leaking signal
-        leaking_signal = (
-            leaking_signals[0] if isinstance(leaking_signals, Sequence) else leaking_signals
-        )
+        # With separated operators each of their signals leaks individually
+        leaking_signal: Signal | None
+        if isinstance(leaking_signals, Sequence):
+            leaking_signal = leaking_signals[0] if len(leaking_signals) > 0 else None
+            for additional_leaking_signal in leaking_signals[1:]:
+                leaking_signal = leaking_signal.superimpose(additional_leaking_signal)
+        else:
+            leaking_signal = leaking_signals
 
         # Model the rf chain's receive behaviour
         rf_input = (
-- 
2.43.0


From eaf3d2da36795cc8a6d09c8732c83e5197f52089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:24 +0000
Subject: [PATCH 032/138] fix: replacing and counting channel links considers
 the default channel

---
 hermespy/simulation/scenario.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hermespy/simulation/scenario.py b/hermespy/simulation/scenario.py
index b7bd098..4c28e11 100644
--- a/hermespy/simulation/scenario.py
+++ b/hermespy/simulation/scenario.py
@@ -303,12 +303,14 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
         link_entries = 0
         for linked_devices, channel in self.__links.items():
             if device in linked_devices:
+                link_entries += 1
                 if not active_only or channel.gain > 0:
                     device_channels.add(channel)
-                    link_entries += 1
 
         # Append the default channel if required
-        if link_entries < self.num_devices:
+        if link_entries < self.num_devices and (
+            not active_only or self.__default_channel.gain > 0
+        ):
             device_channels.add(self.__default_channel)
 
         return device_channels
@@ -347,7 +349,11 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
         # Remove the old channel from the set of device channels and unique channel instances
         # if it is not linked to any other device
         if old_channel is not None:
-            if old_channel not in self.__links.values():
+            # The default channel remains in use by all links without a dedicated channel
+            if (
+                old_channel not in self.__links.values()
+                and old_channel is not self.__default_channel
+            ):
                 self.__channels.remove(old_channel)
 
         # Update the set of unique channel instances
-- 
2.43.0


From cbd73f60e2c5c1df609535b053e23fc674badaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:10 +0000
Subject: [PATCH 033/138] fix: impedance coupling applies matrix instead of
 element-wise roots

---
 hermespy/simulation/coupling/impedance.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hermespy/simulation/coupling/impedance.py b/hermespy/simulation/coupling/impedance.py
index 97b5301..fc4a7ad 100644
--- a/hermespy/simulation/coupling/impedance.py
+++ b/hermespy/simulation/coupling/impedance.py
@@ -5,6 +5,7 @@ from typing import TYPE_CHECKING
 from typing_extensions import override
 
 import numpy as np
+from scipy.linalg import fractional_matrix_power
 
 from hermespy.core import DeserializationProcess, SerializationProcess, SignalBlock
 from .coupling import Coupling
@@ -178,7 +179,9 @@ class ImpedanceCoupling(Coupling):
             else self.transmit_correlation
         )
 
-        transmit_coupling = transmit_impedance.real**-0.5 @ transmit_correlation**0.5
+        transmit_coupling = fractional_matrix_power(
+            transmit_impedance.real, -0.5
+        ) @ fractional_matrix_power(transmit_correlation, 0.5)
         transmitted_samples = transmit_coupling @ signal
 
         return SignalBlock(
@@ -206,9 +209,9 @@ class ImpedanceCoupling(Coupling):
         receive_coupling = (
             2
             * receive_impedance[0, 0].real
-            * matching_impedance.real**0.5
+            * fractional_matrix_power(matching_impedance.real, 0.5)
             @ np.linalg.inv(matching_impedance + receive_correlation)
-            @ receive_correlation**0.5
+            @ fractional_matrix_power(receive_correlation, 0.5)
         )
         received_samples = receive_coupling @ signal
         return SignalBlock(
-- 
2.43.0


From 19344ac620e72c16addface1c4ed6b5ebd17c6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:10 +0000
Subject: [PATCH 034/138] fix: predicted leakage considers the selected
 transmit ports and the calibrated delay

---
 hermespy/hardware_loop/calibration/leakage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hermespy/hardware_loop/calibration/leakage.py b/hermespy/hardware_loop/calibration/leakage.py
index 542be34..4f0934d 100644
--- a/hermespy/hardware_loop/calibration/leakage.py
+++ b/hermespy/hardware_loop/calibration/leakage.py
@@ -125,18 +125,18 @@ class SelectiveLeakageCalibration(LeakageCalibrationBase):
             ),
             dtype=np.complex128,
         )
-        for m, n in np.ndindex(self.leakage_response.shape[0], transmitted_signal.num_streams):
+        for m, n in np.ndindex(self.leakage_response.shape[0], _transmit_signal.num_streams):
             # The leaked signal is the convolution of the transmitted signal with the leakage response
             predicted_signal_samples[m, :] += convolve(
                 self.__leakage_response[m, n, :],
-                transmitted_signal[n : n + 1, :].view(np.ndarray).flatten(),
+                _transmit_signal[n : n + 1, :].view(np.ndarray).flatten(),
             )
 
         return DenseSignal.FromNDArray(
             predicted_signal_samples,
             transmitted_signal.sampling_rate,
             transmitted_signal.carrier_frequency,
-            transmitted_signal.delay + self.delay,
+            delay=transmitted_signal.delay + self.delay,
         )
 
     @override
-- 
2.43.0


From b421b7c84fbc088c0f4b318d0ddf51e3756808e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:11 +0000
Subject: [PATCH 035/138] fix: leakage removal considers all transmit streams
 and the whole received signal

---
 hermespy/hardware_loop/calibration/leakage.py | 34 +++++++------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/hermespy/hardware_loop/calibration/leakage.py b/hermespy/hardware_loop/calibration/leakage.py
index 4f0934d..f631b0a 100644
--- a/hermespy/hardware_loop/calibration/leakage.py
+++ b/hermespy/hardware_loop/calibration/leakage.py
@@ -175,7 +175,7 @@ class SelectiveLeakageCalibration(LeakageCalibrationBase):
 
         for m, n in np.ndindex(
             min(received_signal.num_streams, self.leakage_response.shape[0]),
-            min(transmitted_signal.num_streams, self.leakage_response.shape[0]),
+            min(_transmit_signal.num_streams, self.leakage_response.shape[1]),
         ):
             _m = _receive_ports[m]
 
@@ -186,27 +186,17 @@ class SelectiveLeakageCalibration(LeakageCalibrationBase):
             )
 
             # The correction is achieved by subtracting the leaked signal from the received signal
-            if delay_sample_shift >= 0:
-                leak_range = min(
-                    delay_sample_shift + len(predicted_siso_signal), corrected_signal.num_samples
-                )
-                min_num_samples = min(
-                    corrected_signal.num_samples - delay_sample_shift, len(predicted_siso_signal)
-                )
-                corrected_signal[_m : _m + 1, delay_sample_shift:leak_range] = (
-                    corrected_signal[_m : _m + 1, delay_sample_shift:leak_range]
-                    - predicted_siso_signal[:min_num_samples]
-                )
-
-            else:
-                leak_range = min(
-                    delay_sample_shift + len(predicted_siso_signal),
-                    corrected_signal.num_samples + delay_sample_shift,
-                )
-                min_num_samples = min(corrected_signal.num_samples, len(predicted_siso_signal))
-                corrected_signal[_m : _m + 1, 0:leak_range] = (
-                    corrected_signal[_m : _m + 1, :leak_range]
-                    - predicted_siso_signal[-delay_sample_shift:min_num_samples]
+            # within the section of samples overlapping with the received signal
+            leak_start = max(delay_sample_shift, 0)
+            leak_end = min(
+                delay_sample_shift + len(predicted_siso_signal), corrected_signal.num_samples
+            )
+            if leak_start < leak_end:
+                corrected_signal[_m : _m + 1, leak_start:leak_end] = (
+                    corrected_signal[_m : _m + 1, leak_start:leak_end]
+                    - predicted_siso_signal[
+                        leak_start - delay_sample_shift : leak_end - delay_sample_shift
+                    ]
                 )
 
         return corrected_signal
-- 
2.43.0


From 16367a3ba36c993d5fd78edb759efd972ada4493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:11 +0000
Subject: [PATCH 036/138] fix: receive delay corrections smaller than a sample
 or longer than the signal

---
 hermespy/hardware_loop/physical_device.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hermespy/hardware_loop/physical_device.py b/hermespy/hardware_loop/physical_device.py
index 900164a..957819f 100644
--- a/hermespy/hardware_loop/physical_device.py
+++ b/hermespy/hardware_loop/physical_device.py
@@ -875,14 +875,15 @@ class DelayCalibrationBase(Calibration, Serializable):
             return signal
 
         _receive_ports = slice(None) if self.receive_ports is None else self.receive_ports
-        delay_in_samples = round(self.delay * signal.sampling_rate)
+        delay_in_samples = min(round(self.delay * signal.sampling_rate), signal.num_samples)
+        num_remaining_samples = signal.num_samples - delay_in_samples
 
         # Remove samples from the signal's relevant streams to account for positive delays
         corrected_signal = signal.copy()
-        corrected_signal[_receive_ports, :-delay_in_samples] = signal[
+        corrected_signal[_receive_ports, :num_remaining_samples] = signal[
             _receive_ports, delay_in_samples:
         ]
-        corrected_signal[_receive_ports, -delay_in_samples:] = 0.0
+        corrected_signal[_receive_ports, num_remaining_samples:] = 0.0
         corrected_signal.delay = self.delay
 
         return corrected_signal
-- 
2.43.0


From ceb65d10ee6d8cefe58e7f9a060936e852966f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:11 +0000
Subject: [PATCH 037/138] fix: antenna calibration doesn't modify the signals
 handed to it

---
 hermespy/hardware_loop/calibration/antennas.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/hermespy/hardware_loop/calibration/antennas.py b/hermespy/hardware_loop/calibration/antennas.py
index f5e710e..cd3c67a 100644
--- a/hermespy/hardware_loop/calibration/antennas.py
+++ b/hermespy/hardware_loop/calibration/antennas.py
@@ -76,8 +76,13 @@ class ScalarAntennaCalibration(AntennaCalibration):
                 "The number of streams in the transmission does not match the number of transmit weights."
             )
 
-        np.copyto(transmission, self.__transmit_correction_weights[:, None] * transmission, "safe")
-        return transmission
+        corrected_transmission = transmission.copy()
+        np.copyto(
+            corrected_transmission,
+            self.__transmit_correction_weights[:, None] * transmission,
+            "safe",
+        )
+        return corrected_transmission
 
     @override
     def correct_reception(self, reception: SignalBlock) -> SignalBlock:
@@ -86,8 +91,11 @@ class ScalarAntennaCalibration(AntennaCalibration):
                 "The number of streams in the reception does not match the number of receive weights."
             )
 
-        np.copyto(reception, self.__receive_correction_weights[:, None] * reception, "safe")
-        return reception
+        corrected_reception = reception.copy()
+        np.copyto(
+            corrected_reception, self.__receive_correction_weights[:, None] * reception, "safe"
+        )
+        return corrected_reception
 
     @staticmethod
     def Estimate(
-- 
2.43.0


From 80b63be655991fdcb6c9a2f2c6ec07f11a54659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:54 +0000
Subject: [PATCH 038/138] fix: leakage removal and prediction agree on the
 transmitted signal's delay

---
 hermespy/hardware_loop/calibration/leakage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/hardware_loop/calibration/leakage.py b/hermespy/hardware_loop/calibration/leakage.py
index f631b0a..3d91c53 100644
--- a/hermespy/hardware_loop/calibration/leakage.py
+++ b/hermespy/hardware_loop/calibration/leakage.py
@@ -161,7 +161,7 @@ class SelectiveLeakageCalibration(LeakageCalibrationBase):
             )
 
         # Compute the delay correction
-        delay_correction = transmitted_signal.delay + received_signal.delay
+        delay_correction = received_signal.delay - transmitted_signal.delay
 
         # The received signal is corrected by subtracting the leaked samples
         corrected_signal = received_signal.copy()
-- 
2.43.0


From f988ebe956a4eee0ff64470e4a240cc8eba95a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:55 +0000
Subject: [PATCH 039/138] fix: devices separating their operators receive
 superimposed signals

---
 hermespy/simulation/simulated_device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 7b78e1f..6c75881 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -815,7 +815,7 @@ class ProcessedSimulatedDeviceInput(ProcessedDeviceInput, SimulatedDeviceReceive
 
                     _impinging_signals.append(superposition)  # type: ignore
 
-            elif not operator_separation and isinstance(impinging_signals[0], Signal):
+            elif isinstance(impinging_signals[0], Signal):
                 _impinging_signals = impinging_signals  # type: ignore
 
             else:
-- 
2.43.0


From decb19cd3ee0b419b23a73362cb6143928215574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 040/138] fix: mixing of superimposed signals preserves their
 phase

---
 hermespy/core/signal_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 27b4511..f440524 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -634,7 +634,12 @@ class SignalBlock(np.ndarray[tuple[int, int], np.dtype[np.complex128]], Serializ
             fs=sampling_rate,
         ).astype(complex)
         filter_coefficients *= np.exp(
-            2j * np.pi * 0.5 * frequency_distance / sampling_rate * np.arange(1 + filter_order)
+            2j
+            * np.pi
+            * 0.5
+            * frequency_distance
+            / sampling_rate
+            * (np.arange(1 + filter_order) - filter_order // 2)
         )
 
         # Apply the bandpass filter to the samples of this signal block
-- 
2.43.0


From 34243ca55224ee042da04963c3c6f8c32a24d703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 041/138] fix: physical devices apply the adaptive sampling and
 low-pass filter flags of their constructor

---
 hermespy/hardware_loop/physical_device.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/hardware_loop/physical_device.py b/hermespy/hardware_loop/physical_device.py
index 957819f..2c7f946 100644
--- a/hermespy/hardware_loop/physical_device.py
+++ b/hermespy/hardware_loop/physical_device.py
@@ -141,8 +141,8 @@ class PhysicalDevice(Generic[PDST], Device[PDST]):
 
         # Initialize class attributes
         self.max_receive_delay = max_receive_delay
-        self.adaptive_sampling = False
-        self.lowpass_filter = False
+        self.adaptive_sampling = adaptive_sampling
+        self.lowpass_filter = lowpass_filter
         self.lowpass_bandwidth = lowpass_bandwidth
         self.__recent_upload = None
         self.noise_power = noise_power
-- 
2.43.0


From e8cd83e6eee6ae086ae051a3f81b05e725e9d070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 042/138] fix: delay calibration estimates the delay of
 phase-shifted and multi-port receptions

---
 hermespy/hardware_loop/calibration/delay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/hardware_loop/calibration/delay.py b/hermespy/hardware_loop/calibration/delay.py
index 49e41d8..f6fcdaa 100644
--- a/hermespy/hardware_loop/calibration/delay.py
+++ b/hermespy/hardware_loop/calibration/delay.py
@@ -112,7 +112,7 @@ class DelayCalibration(DelayCalibrationBase):
             # Infer the implicit delay by estimating the sample index of the propagated dirac
             propagated_signals.append(propagated_signal)
             propagated_dirac_indices[n] = np.argmax(
-                propagated_signal.blocks[0].view(np.ndarray)[_receive_ports, :]
+                np.sum(np.abs(propagated_signal.view(np.ndarray)[_receive_ports, :]), axis=0)
             )
 
             # Wait the configured amount of time between iterations
-- 
2.43.0


From 906f4920c29fb75ad77ff031f4faef839c52507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 043/138] fix: leakage estimation considers selected ports and
 responses peaking at their first sample

---
 hermespy/hardware_loop/calibration/leakage.py | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/hermespy/hardware_loop/calibration/leakage.py b/hermespy/hardware_loop/calibration/leakage.py
index 3d91c53..f4bd241 100644
--- a/hermespy/hardware_loop/calibration/leakage.py
+++ b/hermespy/hardware_loop/calibration/leakage.py
@@ -402,18 +402,24 @@ class SelectiveLeakageCalibration(LeakageCalibrationBase):
 
         # Convert the estimated leakage-response into the time-domain
         leakage_response = np.asarray(
-            ifft(estimated_frequency_response[_receive_ports, _transmit_ports, :], norm="backward"),
+            ifft(
+                estimated_frequency_response[_receive_ports, :, :][:, _transmit_ports, :],
+                norm="backward",
+            ),
             np.complex128,
         )
 
         # Only consider the leakage response around the highest peak
         if filter_calibration:
             summed_response = np.sum(abs(leakage_response), axis=(0, 1), keepdims=False)
-            peaks: np.ndarray = find_peaks(summed_response, 0.25 * summed_response.max())[0]
+            # Pad the response, since peaks may be located at its first and last sample
+            padded_response = np.pad(summed_response, 1)
+            peaks: np.ndarray = find_peaks(padded_response, 0.25 * padded_response.max())[0]
             if peaks.size != 0:
                 widths: np.ndarray = np.ceil(
-                    peak_widths(summed_response, peaks, rel_height=0.75)[0]
+                    peak_widths(padded_response, peaks, rel_height=0.75)[0]
                 )
+                peaks = peaks - 1
                 new_leakage_response = np.zeros_like(leakage_response)
                 for p, w in zip(peaks, widths):
                     p_start = max(0, int(p - w // 2))
@@ -424,7 +430,11 @@ class SelectiveLeakageCalibration(LeakageCalibrationBase):
                 leakage_response = new_leakage_response
 
         calibration = SelectiveLeakageCalibration(
-            leakage_response, device.sampling_rate, device.delay_calibration.delay
+            leakage_response,
+            device.sampling_rate,
+            device.delay_calibration.delay,
+            transmit_ports=transmit_ports,
+            receive_ports=receive_ports,
         )
 
         # Configure the device with the estimated calibration if the respective flag is enabled
@@ -490,7 +500,7 @@ class SelectiveLeakageCalibration(LeakageCalibrationBase):
         if np.any(noise_power < 0.0):
             raise ValueError(f"Noise power must be non-negative (not {noise_power})")
 
-        if noise_power.ndim != 1 or noise_power.shape[0] != device.num_transmit_rf_ports:
+        if noise_power.ndim != 1 or noise_power.shape[0] != device.num_receive_rf_ports:
             raise ValueError("Noise power has invalid dimensions")
 
         # Estimate frequency spectra via MMSE estimation
-- 
2.43.0


From af01f45652491bfc86b28ce00ad99e7765884113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 044/138] fix: directly triggered physical device dummies can
 remove leakage at their carrier frequency

---
 hermespy/hardware_loop/physical_device_dummy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hermespy/hardware_loop/physical_device_dummy.py b/hermespy/hardware_loop/physical_device_dummy.py
index d132eab..2422157 100644
--- a/hermespy/hardware_loop/physical_device_dummy.py
+++ b/hermespy/hardware_loop/physical_device_dummy.py
@@ -264,7 +264,10 @@ class PhysicalDeviceDummy(SimulatedDevice, PhysicalDevice, Serializable):
         # Apply the simulation receive model
         leaking_signal = self.isolation.leak(signal)
         processed_input = self.process_input(input, leaking_signals=leaking_signal)
-        baseband_signal = processed_input.baseband_signal
+        baseband_signal = processed_input.baseband_signal.copy()
+
+        # The leakage calibration compares transmitted and received signals at the same carrier
+        baseband_signal.carrier_frequency = signal.carrier_frequency
 
         # Apply correction routines if calibrations are available
         corrected_signal = (
-- 
2.43.0


From b0b4973c513e90e779fb3718ac07bfe5f8c5e13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 045/138] fix: negative delay calibrations keep the spacing of
 transmitted signal blocks

---
 hermespy/hardware_loop/physical_device.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/hermespy/hardware_loop/physical_device.py b/hermespy/hardware_loop/physical_device.py
index 2c7f946..eb80b2b 100644
--- a/hermespy/hardware_loop/physical_device.py
+++ b/hermespy/hardware_loop/physical_device.py
@@ -846,17 +846,21 @@ class DelayCalibrationBase(Calibration, Serializable):
         delay_in_samples = round(-self.delay * signal.sampling_rate)
         corrected_signal = Signal.Create(
             [
-                np.concatenate(
-                    (np.zeros((signal.num_streams, delay_in_samples), dtype=np.complex128), b),
-                    axis=1,
-                ).view(SignalBlock)
-                for b in signal.blocks
+                (
+                    np.concatenate(
+                        (np.zeros((signal.num_streams, delay_in_samples), dtype=np.complex128), b),
+                        axis=1,
+                    ).view(SignalBlock)
+                    if i < 1
+                    else b
+                )
+                for i, b in enumerate(signal.blocks)
             ],
             signal.sampling_rate,
             signal.carrier_frequency,
             signal.noise_power,
             signal.delay,
-            [b.offset for b in signal.blocks],
+            [b.offset + delay_in_samples * (i > 0) for i, b in enumerate(signal.blocks)],
         )
 
         return corrected_signal
-- 
2.43.0


From 11cb4de9992c9915778e1b452c1ce21ccde62d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 046/138] fix: sparse signals created from blocks respect the
 provided offsets

---
 hermespy/core/signal_model.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index f440524..4f739cf 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -903,6 +903,18 @@ class Signal(ABC, Iterable, Serializable):
         if isinstance(samples, Sequence) and (
             len(samples) != 1 or (isinstance(samples[0], SignalBlock) and samples[0].offset > 0)
         ):
+            if offsets is not None:
+                samples = [
+                    (
+                        s
+                        if isinstance(s, SignalBlock) and s.offset == o
+                        else SignalBlock(
+                            s.shape[0], s.shape[1], o, np.asarray(s, np.complex128).tobytes()
+                        )
+                    )
+                    for s, o in zip(samples, offsets, strict=True)
+                ]
+
             return SparseSignal(samples, sampling_rate, carrier_frequency, noise_power, delay)
 
         dense_delay = delay
-- 
2.43.0


From adca3f5f1cdfac441dd4ab117e222e940e1aa5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 047/138] fix: white noise can be added to sparse signals with
 multiple blocks

---
 hermespy/simulation/rf/noise/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/rf/noise/model.py b/hermespy/simulation/rf/noise/model.py
index 90e9614..f3b9a90 100644
--- a/hermespy/simulation/rf/noise/model.py
+++ b/hermespy/simulation/rf/noise/model.py
@@ -153,8 +153,8 @@ class AWGNRealization(NoiseRealization):
         )
 
         noisy_signal = signal.copy()
-        for block in noisy_signal.blocks:
-            block += noise_samples  # type: ignore
+        for block, offset in zip(noisy_signal.blocks, noisy_signal.block_offsets):
+            block += noise_samples[:, offset : offset + block.num_samples]  # type: ignore
         noisy_signal.noise_power = self.power
 
         return noisy_signal
-- 
2.43.0


From 16b98d39221b8ede028d617ea4aa89b8d39486a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 048/138] fix: the default radio frequency chain does not add
 the device noise repeatedly

---
 hermespy/simulation/simulated_device.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 6c75881..45b7cee 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -1241,6 +1241,7 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
         self.__simulated_input_callbacks = Hookable()
 
         # Build the default radio frequency chain
+        # Its blocks are noiseless, since the device's noise is added to the receiver inputs
         if rf is None:
             self.rf = RFChain()
 
@@ -1248,15 +1249,11 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
             dacs = self.rf.new_blocks(
                 DAC,
                 self.num_transmit_antennas,
-                noise_model=self.noise_model,
-                noise_level=self.noise_level,
             )
             upmixers = self.rf.new_blocks(
                 IdealMixer,
                 self.num_transmit_antennas,
                 mixer_type=MixerType.UP,
-                noise_model=self.noise_model,
-                noise_level=self.noise_level,
             )
             for dac, upmixer in zip(dacs, upmixers):
                 self.rf.connect(dac.port("o"), upmixer.port("i"))
@@ -1265,15 +1262,11 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
             adcs = self.rf.new_blocks(
                 ADC,
                 self.num_receive_antennas,
-                noise_model=self.noise_model,
-                noise_level=self.noise_level,
             )
             downmixers = self.rf.new_blocks(
                 IdealMixer,
                 self.num_receive_antennas,
                 mixer_type=MixerType.DOWN,
-                noise_model=self.noise_model,
-                noise_level=self.noise_level,
             )
             for adc, downmixer in zip(adcs, downmixers):
                 self.rf.connect(downmixer.port("o"), adc.port("i"))
-- 
2.43.0


From 538bdc157a42b89c5c17d90d2087a28fdf27a252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:00 +0000
Subject: [PATCH 049/138] fix: the scapy frame generator keeps the configured
 packet layers and fields

---
 hermespy/modem/frame_generator/scapy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hermespy/modem/frame_generator/scapy.py b/hermespy/modem/frame_generator/scapy.py
index 1c66272..046975d 100644
--- a/hermespy/modem/frame_generator/scapy.py
+++ b/hermespy/modem/frame_generator/scapy.py
@@ -54,9 +54,10 @@ class FrameGeneratorScapy(FrameGenerator):
             raise ValueError(
                 f"Packet header is bigger then the requested amount of bits ({len(self.packet)*8} > {num_bits})."
             )
-        packet_new = self.packet_type()
+        packet_new = self.packet.copy()
         packet_new.add_payload(np.packbits(source.generate_bits(payload_num_bits)).tobytes())
-        return np.unpackbits(np.frombuffer(raw(packet_new), np.uint8))
+        # Strip the bits padding the payload to full bytes
+        return np.unpackbits(np.frombuffer(raw(packet_new), np.uint8))[:num_bits]
 
     def unpack_frame(self, frame: np.ndarray) -> np.ndarray:
         if frame.size < self.packet_num_bits:
-- 
2.43.0


From 1b5bdea866ba153a1b85433e40637caccf0c1a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:18 +0000
Subject: [PATCH 050/138] fix: communication frames are time stamped by their
 position in the signal

---
 hermespy/modem/modem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/modem/modem.py b/hermespy/modem/modem.py
index 727b081..b182cd5 100644
--- a/hermespy/modem/modem.py
+++ b/hermespy/modem/modem.py
@@ -872,7 +872,7 @@ class TransmittingModemBase(Generic[CWT], BaseModem[CWT]):
                     code_block_size=self.encoder_manager.code_block_size,
                     symbols=mapped_symbols,
                     encoded_symbols=encoded_symbols,
-                    timestamp=n * frame_duration,
+                    timestamp=frame_offset / state.sampling_rate,
                 )
             )
             frame_offset += frame_signal.num_samples
@@ -1248,7 +1248,7 @@ class ReceivingModemBase(Generic[CWT], BaseModem[CWT]):
                     decoded_signal=frame_signal,
                     symbols=symbols,
                     decoded_symbols=decoded_symbols,
-                    timestamp=frame_index * signal.sampling_rate,
+                    timestamp=frame_index / signal.sampling_rate,
                     equalized_symbols=equalized_symbols,
                     encoded_bits=encoded_bits,
                     code_block_size=self.encoder_manager.code_block_size,
-- 
2.43.0


From 3d3e4739fe1b0fbea9157b0c0493a650c664cadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:18 +0000
Subject: [PATCH 051/138] fix: modems do not drop a frame due to a rounded
 duration

---
 hermespy/modem/modem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermespy/modem/modem.py b/hermespy/modem/modem.py
index b182cd5..37a7b93 100644
--- a/hermespy/modem/modem.py
+++ b/hermespy/modem/modem.py
@@ -799,7 +799,8 @@ class TransmittingModemBase(Generic[CWT], BaseModem[CWT]):
             duration = frame_duration
 
         # Compute the number of frames to be transmitted within the given duration
-        num_mimo_frames = int(duration / frame_duration)
+        # Tolerate floating point errors if the duration is a multiple of the frame duration
+        num_mimo_frames = int(duration / frame_duration + 1e-9)
 
         # Compute the number of parallel symbol streams required to transmit over the given coding config
         num_input_signal_streams = self.transmit_signal_coding.num_transmit_input_streams(
-- 
2.43.0


From 4a451b7e93f1d448ce865dfdc1184f868df6eb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:18 +0000
Subject: [PATCH 052/138] fix: radio frequency signals can be resized by
 slicing without losing port information

---
 hermespy/simulation/rf/signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/rf/signal.py b/hermespy/simulation/rf/signal.py
index 45728bf..a643ef0 100644
--- a/hermespy/simulation/rf/signal.py
+++ b/hermespy/simulation/rf/signal.py
@@ -126,13 +126,13 @@ class RFSignal(DenseSignal):
 
         # Recover additional attributes lost in numpy view/copy operations
         if hasattr(obj, "carrier_frequencies"):
-            self.carrier_frequencies = obj.carrier_frequencies[: self.num_streams].copy()  # type: ignore
+            self.carrier_frequencies = np.resize(obj.carrier_frequencies, self.num_streams)  # type: ignore
         else:
             self.carrier_frequencies = np.full(
                 (self.num_streams,), self.carrier_frequency, np.float64
             )
         if hasattr(obj, "noise_powers"):
-            self.noise_powers = obj.noise_powers[: self.num_streams].copy()  # type: ignore
+            self.noise_powers = np.resize(obj.noise_powers, self.num_streams)  # type: ignore
         else:
             self.noise_powers = np.full((self.num_streams,), self.noise_power, np.float64)
 
-- 
2.43.0


From 3d609909f7e6385a214e1702c8ce9533f1ba2f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:18 +0000
Subject: [PATCH 053/138] fix: phase shifters quantize the phase to the nearest
 available state

---
 hermespy/simulation/rf/blocks/shift.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hermespy/simulation/rf/blocks/shift.py b/hermespy/simulation/rf/blocks/shift.py
index 8d81bb2..958f976 100644
--- a/hermespy/simulation/rf/blocks/shift.py
+++ b/hermespy/simulation/rf/blocks/shift.py
@@ -98,7 +98,14 @@ class Shift(RFBlock):
 
     @override
     def _propagate(self, realization: RFBlockRealization, input: RFSignal) -> RFSignal:
-        return input * np.exp(1j * self.__phase)
+        phase = self.__phase
+
+        # Only a discrete set of equidistant phases is available if quantization is enabled
+        if self.__num_quantization_bits > 0:
+            phase_step = 2 * np.pi / 2**self.__num_quantization_bits
+            phase = phase_step * np.round(phase / phase_step)
+
+        return input * np.exp(1j * phase)
 
     @property
     def i(self) -> RFBlockPort[Shift]:
-- 
2.43.0


From 97f0cc5d5d67374dd39bdd61949c410ccfdb5265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:18 +0000
Subject: [PATCH 054/138] fix: descending chirps are generated by the chirp
 generator

---
 hermespy/simulation/rf/blocks/ramp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/simulation/rf/blocks/ramp.py b/hermespy/simulation/rf/blocks/ramp.py
index fd28f6a..f6c45ce 100644
--- a/hermespy/simulation/rf/blocks/ramp.py
+++ b/hermespy/simulation/rf/blocks/ramp.py
@@ -166,7 +166,7 @@ class RampGenerator(RFBlock):
         """
 
         num_guarded_chirp_samples = int(chirp_interval * sampling_rate)
-        chirp_duration = bandwidth / slope
+        chirp_duration = bandwidth / abs(slope)
         num_chirp_samples = min(num_guarded_chirp_samples, int(chirp_duration * sampling_rate))
 
         chirp_samples = np.zeros(num_guarded_chirp_samples, dtype=np.complex128)
-- 
2.43.0


From 6fa0226b426107e49c3991e6ca91de4f9b3226a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:18 +0000
Subject: [PATCH 055/138] fix: custom power amplifier characteristics are
 validated for equal lengths

---
 hermespy/simulation/rf/blocks/amps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/simulation/rf/blocks/amps.py b/hermespy/simulation/rf/blocks/amps.py
index 30d8da8..1cfb661 100644
--- a/hermespy/simulation/rf/blocks/amps.py
+++ b/hermespy/simulation/rf/blocks/amps.py
@@ -604,7 +604,7 @@ class CustomPowerAmplifier(PowerAmplifier):
         if phases.ndim != 1:
             raise ValueError("Custom power amplifier phase must be a vector")
 
-        if len(input) != len(gains) != len(phases):
+        if not len(input) == len(gains) == len(phases):
             raise ValueError(
                 "Custom power amplifier input, gain and phase vectors must be of identical length"
             )
-- 
2.43.0


From 35580d86b69f0771b7d3ad8cbae68970265fc78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:18 +0000
Subject: [PATCH 056/138] fix: memory polynomial power amplifiers process radio
 frequency signals

---
 hermespy/simulation/rf/blocks/amps.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/hermespy/simulation/rf/blocks/amps.py b/hermespy/simulation/rf/blocks/amps.py
index 1cfb661..df98f07 100644
--- a/hermespy/simulation/rf/blocks/amps.py
+++ b/hermespy/simulation/rf/blocks/amps.py
@@ -731,18 +731,25 @@ class MemoryPolynomialPowerAmplifier(PowerAmplifier):
     def model(self, input_signal: RFSignal) -> RFSignal:
         memory_len = self.coeff_matrix.shape[0]
         degree_len = self.coeff_matrix.shape[1]
+        # The amplifier is assumed to be idle before the first sample
+        x = np.pad(input_signal.view(np.ndarray).ravel(), (memory_len - 1, 0))
+
         windows = np.lib.stride_tricks.sliding_window_view(
-            input_signal.view(np.ndarray), memory_len
+            x, memory_len
         )[:, ::-1]
         K_range = np.arange(degree_len)[:, None, None]
         input_matrix = (
             (windows[None] * np.abs(windows[None]) ** K_range)
             .transpose(1, 0, 2)
-            .reshape(input_signal.size - memory_len + 1, -1)
+            .reshape(input_signal.size, -1)
         )
         output_samples = input_matrix @ self.coeff_matrix.ravel(order="F")
         return RFSignal.FromNDArray(
-            output_samples, input_signal.sampling_rate, input_signal.carrier_frequency
+            output_samples.reshape((1, -1)),
+            input_signal.sampling_rate,
+            input_signal.carrier_frequencies,
+            input_signal.noise_powers,
+            input_signal.delay,
         )
 
     @override
@@ -833,7 +840,8 @@ class MemoryCTPolynomialPowerAmplifier(PowerAmplifier):
     def model(self, input_signal: RFSignal) -> RFSignal:
         memory_len = self.coeff_matrix.shape[0]
         degree_len = int((self.coeff_matrix.shape[1] - 1) / memory_len) + 1
-        x = input_signal.view(np.ndarray)[:, None]
+        # The amplifier is assumed to be idle before the first sample
+        x = np.pad(input_signal.view(np.ndarray).ravel(), (memory_len - 1, 0))[:, None]
         xLen = x.shape[0]
         num_samples = xLen - memory_len + 1
         absPow = np.abs(x) ** np.arange(1, degree_len)
@@ -851,7 +859,11 @@ class MemoryCTPolynomialPowerAmplifier(PowerAmplifier):
         )
         output_samples = input_matrix @ self.coeff_matrix.ravel(order="F")
         return RFSignal.FromNDArray(
-            output_samples, input_signal.sampling_rate, input_signal.carrier_frequency
+            output_samples.reshape((1, -1)),
+            input_signal.sampling_rate,
+            input_signal.carrier_frequencies,
+            input_signal.noise_powers,
+            input_signal.delay,
         )
 
     @override
-- 
2.43.0


From 2a015b2a0521d7f1698482bedc61654dabd655dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:18 +0000
Subject: [PATCH 057/138] fix: a further connection between two radio frequency
 blocks keeps the previous one

---
 hermespy/simulation/rf/chain.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/rf/chain.py b/hermespy/simulation/rf/chain.py
index 69bb7bb..1c1c0f4 100644
--- a/hermespy/simulation/rf/chain.py
+++ b/hermespy/simulation/rf/chain.py
@@ -200,7 +200,9 @@ class RFBlockReference(Generic[RFBT], Serializable):
         ):
             raise ValueError(f"Invalid input port index {_input_ports}")
 
-        self.__outgoing_connections[input] = (_output_ports, _input_ports)
+        # Consider ports already connected to the same block
+        outputs, inputs = self.__outgoing_connections.get(input, ([], []))
+        self.__outgoing_connections[input] = (outputs + _output_ports, inputs + _input_ports)
 
     def connect_from(
         self, output: RFBlockReference, output_ports: int | list[int], input_ports: int | list[int]
@@ -224,7 +226,9 @@ class RFBlockReference(Generic[RFBT], Serializable):
         ):
             raise ValueError(f"Invalid input port index {_input_ports}")
 
-        self.__incoming_connections[output] = (_output_ports, _input_ports)
+        # Consider ports already connected to the same block
+        outputs, inputs = self.__incoming_connections.get(output, ([], []))
+        self.__incoming_connections[output] = (outputs + _output_ports, inputs + _input_ports)
 
     def propagate(self, state: RFBlockRealization, input: RFSignal) -> RFSignal:
         """Propagate a signal through the referenced block.
-- 
2.43.0


From eb50eb7cd4a23f50dd4ec4b2e3aca331cb4aa3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:18 +0000
Subject: [PATCH 058/138] fix: connected output ports are not radiated by the
 radio frequency chain

---
 hermespy/simulation/rf/chain.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/hermespy/simulation/rf/chain.py b/hermespy/simulation/rf/chain.py
index 1c1c0f4..ed16858 100644
--- a/hermespy/simulation/rf/chain.py
+++ b/hermespy/simulation/rf/chain.py
@@ -153,7 +153,14 @@ class RFBlockReference(Generic[RFBT], Serializable):
     def num_connected_output_ports(self) -> int:
         """Number of connected output ports."""
 
-        return sum(len(v[0]) for v in self.__outgoing_connections.values())
+        return len({port for v in self.__outgoing_connections.values() for port in v[0]})
+
+    @property
+    def open_output_ports(self) -> list[int]:
+        """List of open output port indices."""
+
+        connected_ports = {port for v in self.__outgoing_connections.values() for port in v[0]}
+        return [p for p in range(self.block.num_output_ports) if p not in connected_ports]
 
     @property
     def open_input_ports(self) -> list[int]:
@@ -563,7 +570,7 @@ class RFChain(RandomNode, Serializable):
             p += num_input_ports
 
         # Propagate back from the DSP output through the chain
-        num_output_ports = sum(b.block.num_output_ports for b in self.__rf_output_blocks)
+        num_output_ports = sum(len(b.open_output_ports) for b in self.__rf_output_blocks)
         output = RFSignal(num_output_ports, num_samples, realization.sampling_rate)
         k = 0
         block_outputs: MutableMapping[RFBlockReference, DenseSignal] = {}
@@ -571,8 +578,9 @@ class RFChain(RandomNode, Serializable):
             block_output = self.__generate_output(
                 realization, num_samples, block, origin_inputs, block_outputs
             )
-            output[k : k + block_output.num_streams, :] = block_output
-            k += block_output.num_streams
+            open_output = block_output[block.open_output_ports, :num_samples]
+            output[k : k + open_output.num_streams, : open_output.num_samples] = open_output
+            k += open_output.num_streams
 
         return output
 
-- 
2.43.0


From 3deb844b603ee8cfaa89b3098b0b2ee4d33e8e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:18 +0000
Subject: [PATCH 059/138] fix: unexcited radio frequency ports carry no signal

---
 hermespy/simulation/rf/chain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermespy/simulation/rf/chain.py b/hermespy/simulation/rf/chain.py
index ed16858..05811a9 100644
--- a/hermespy/simulation/rf/chain.py
+++ b/hermespy/simulation/rf/chain.py
@@ -572,6 +572,7 @@ class RFChain(RandomNode, Serializable):
         # Propagate back from the DSP output through the chain
         num_output_ports = sum(len(b.open_output_ports) for b in self.__rf_output_blocks)
         output = RFSignal(num_output_ports, num_samples, realization.sampling_rate)
+        output.fill(0.0)
         k = 0
         block_outputs: MutableMapping[RFBlockReference, DenseSignal] = {}
         for block in self.__rf_output_blocks:
@@ -611,6 +612,7 @@ class RFChain(RandomNode, Serializable):
         # Propagate forward from the RF input through the chain
         num_input_ports = sum(b.block.num_input_ports for b in self.__dsp_output_blocks)
         output = RFSignal(num_input_ports, num_samples, realization.sampling_rate)
+        output.fill(0.0)
         k = 0
         block_outputs: MutableMapping[RFBlockReference, DenseSignal] = {}
         for block in self.__dsp_output_blocks:
@@ -650,9 +652,11 @@ class RFChain(RandomNode, Serializable):
         ]
 
         # Combine all relevant inputs into a single DenseSignal
+        # Ports without an impinging signal are not excited
         block_input = RFSignal(
             block.block.num_input_ports, num_samples, chain_realization.sampling_rate
         )
+        block_input.fill(0.0)
         for impinging_signal, (output_ports, input_ports) in zip(
             connected_block_ouputs, block.incoming_connections.values()
         ):
-- 
2.43.0


From 2e452ae1f6e32a96dab35b335840dd30446f564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 060/138] fix: the rms value covers all streams

---
 hermespy/tools/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/tools/math.py b/hermespy/tools/math.py
index 52c657b..a841ecd 100644
--- a/hermespy/tools/math.py
+++ b/hermespy/tools/math.py
@@ -103,7 +103,7 @@ def marcum_q(a: float, b: np.ndarray, m: float = 1.0):
 def rms_value(x: np.ndarray) -> float:  # pragma: no cover
     """Returns the root-mean-square value of a given input vector"""
 
-    return np.linalg.norm(x, 2) / np.sqrt(x.size)
+    return np.linalg.norm(np.asarray(x).ravel(), 2) / np.sqrt(x.size)
 
 
 def amplitude_path_loss(carrier_frequency: float, distance: float) -> float:
-- 
2.43.0


From 963d153c3c46b47570ebd740ccb40427ddb794a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 061/138] fix: Monte Carlo sections are dispatched and
 collected over the simulated grid

---
 hermespy/core/pymonte/monte_carlo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/pymonte/monte_carlo.py b/hermespy/core/pymonte/monte_carlo.py
index bc61dc6..0126275 100644
--- a/hermespy/core/pymonte/monte_carlo.py
+++ b/hermespy/core/pymonte/monte_carlo.py
@@ -358,7 +358,7 @@ class MonteCarlo(Generic[MO]):
             remote_queue_manager_class = ray.remote(MonteCarloQueueManager)
             queue_manager = remote_queue_manager_class.options(
                 num_cpus=0, enable_task_events=self.__debug
-            ).remote(self.dimensions, self.num_samples)
+            ).remote(_dimensions, self.num_samples)
 
             # Initialize actor pool
             remote_actor_class = ray.remote(actor)
@@ -368,7 +368,7 @@ class MonteCarlo(Generic[MO]):
             remote_collector_class = ray.remote(MonteCarloCollector)
             collector = remote_collector_class.options(
                 num_cpus=0, max_concurrency=2, enable_task_events=self.__debug
-            ).remote(queue_manager, actors, self.dimensions, self.evaluators)
+            ).remote(queue_manager, actors, _dimensions, self.evaluators)
 
         # Initialize progress bar
         progress = Progress(
-- 
2.43.0


From db447615cee94db9c4447f9dca480189bc8bf826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 062/138] fix: the Monte Carlo progress counts the active
 sections only

---
 hermespy/core/pymonte/actors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index f330fbe..557a2d5 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -144,7 +144,7 @@ class MonteCarloQueueManager(object):
 
         return (
             (self.__num_grid_sections - self.__num_active_sections) * self.__num_samples
-            + np.sum(self.__grid_task_count[self.__active_section_coordinates])
+            + np.sum(self.__grid_task_count[self.__active_section_flags])
         ) / self.__max_num_samples, self.__active_section_flags
 
 
-- 
2.43.0


From 43c0d85d90541fd8b82c90b3b93bc5a5b46c066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 063/138] fix: no Monte Carlo samples are lost or collected
 twice at the end of a campaign

---
 hermespy/core/pymonte/actors.py      | 56 +++++++++++++++++-----------
 hermespy/core/pymonte/monte_carlo.py |  7 +++-
 2 files changed, 39 insertions(+), 24 deletions(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index 557a2d5..b14aad5 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 from abc import abstractmethod
+from threading import Event, Lock
 from typing import Callable, Generic, Sequence
 
 import numpy as np
@@ -154,7 +155,6 @@ class MonteCarloCollector(object):
     __queue_manager: MonteCarloQueueManager
     __actors: list[MonteCarloActor]
     __results: list[EvaluationResult]
-    __active: bool = True  # Whether the collector is still running
 
     def __init__(
         self,
@@ -174,7 +174,8 @@ class MonteCarloCollector(object):
         self.__queue_manager = queue_manager
         self.__actors = actors
         self.__results = [e.initialize_result(grid) for e in evaluators]
-        self.__active = False
+        self.__stopped = Event()  # Set once the collector should stop running
+        self.__run_lock = Lock()  # Held while the run routine is processing samples
         self.__future_map: dict[ObjectRef, MonteCarloActor] = {}
 
     def run(self) -> None:
@@ -183,19 +184,21 @@ class MonteCarloCollector(object):
         This method will block and keep running until :meth:`fetch_results` is called.
         """
 
-        self.__future_map = {a.fetch_results.remote(): a for a in self.__actors}  # type: ignore[attr-defined]
-        self.__active = True
+        with self.__run_lock:
 
-        while self.__active:
-            # Wait for the next sample to be available
-            ready_future = wait(list(self.__future_map.keys()), num_returns=1)[0][0]
+            if not self.__stopped.is_set():
+                self.__future_map = {a.fetch_results.remote(): a for a in self.__actors}  # type: ignore[attr-defined]
 
-            # Process the samples received from the actor
-            self.__process_samples(ready_future, True)
+            while not self.__stopped.is_set():
+                # Wait for the next sample to be available
+                ready_future = wait(list(self.__future_map.keys()), num_returns=1)[0][0]
 
-            # Re-queue the request for the next result
-            actor = self.__future_map.pop(ready_future)
-            self.__future_map[actor.fetch_results.remote()] = actor  # type: ignore[attr-defined]
+                # Process the samples received from the actor
+                self.__process_samples(ready_future, True)
+
+                # Re-queue the request for the next result
+                actor = self.__future_map.pop(ready_future)
+                self.__future_map[actor.fetch_results.remote()] = actor  # type: ignore[attr-defined]
 
     def __process_samples(
         self,
@@ -239,15 +242,20 @@ class MonteCarloCollector(object):
         Returns: list of evaluation results from the collector run.
         """
 
-        # Stop the collector
-        self.__active = False
+        # Stop the collector and wait until it no longer processes samples
+        self.__stopped.set()
+        with self.__run_lock:
+
+            # Process the last results within the queue
+            query_futures = list(self.__future_map.keys())
+            futures = wait(query_futures, num_returns=len(query_futures))[0]
 
-        # Process the last results within the queue
-        query_futures = list(self.__future_map.keys())
-        futures = wait(query_futures, num_returns=len(query_futures))[0]
+            for future in futures:
+                self.__process_samples(future, False)
 
-        for future in futures:
-            self.__process_samples(future, False)
+            # Process the results generated since the last request to each actor
+            for actor in self.__actors:
+                self.__process_samples(actor.fetch_results.remote(), False)  # type: ignore[attr-defined]
 
         return self.__results
 
@@ -299,6 +307,7 @@ class MonteCarloActor(Generic[MO]):
         self.index = index
         self.__queue_manager = queue_manager
         self.__results = []
+        self.__results_lock = Lock()
         self.catch_exceptions = catch_exceptions
         self.__investigated_object = investigated_object
         self.__grid = grid
@@ -352,7 +361,9 @@ class MonteCarloActor(Generic[MO]):
             result = self.__run_batch(batch)
 
             if len(result) > 0:
-                self.__results.append(put(result))
+                result_reference = put(result)
+                with self.__results_lock:
+                    self.__results.append(result_reference)
 
     def fetch_results(self) -> list[ObjectRef[list[MonteCarloSample]]]:
         """Fetch the results of the actor run.
@@ -360,8 +371,9 @@ class MonteCarloActor(Generic[MO]):
         Returns: list of results from the actor run.
         """
 
-        results = self.__results.copy()
-        self.__results.clear()  # Clear the results after fetching
+        with self.__results_lock:
+            results = self.__results.copy()
+            self.__results.clear()  # Clear the results after fetching
         return results
 
     def __run_batch(self, batch: list[tuple[int, ...]]) -> list[MonteCarloSample]:
diff --git a/hermespy/core/pymonte/monte_carlo.py b/hermespy/core/pymonte/monte_carlo.py
index 0126275..dd631b1 100644
--- a/hermespy/core/pymonte/monte_carlo.py
+++ b/hermespy/core/pymonte/monte_carlo.py
@@ -382,8 +382,7 @@ class MonteCarlo(Generic[MO]):
         with Live(status_group, console=self.console) if self.__console_mode == ConsoleMode.INTERACTIVE else nullcontext():  # type: ignore
 
             # Start running the actors
-            for a in actors:
-                _ = a.run.remote()  # type: ignore
+            run_futures = [a.run.remote() for a in actors]  # type: ignore
 
             # Start the collector
             _ = collector.run.remote()  # type: ignore
@@ -471,6 +470,10 @@ class MonteCarlo(Generic[MO]):
         # Fetch all remote samples at the controller#
         with self.console.status("Collecting remote results ...", spinner="dots") if self.__console_mode == ConsoleMode.INTERACTIVE else nullcontext():  # type: ignore
 
+            # All samples have been dispatched at this point,
+            # but the actors might still be busy generating the most recent ones
+            ray.wait(run_futures, num_returns=len(run_futures))
+
             evaluation_results: list[EvaluationResult] = ray.get(collector.fetch_results.remote())  # type: ignore
 
         # Measure elapsed time
-- 
2.43.0


From 7b5562f32e7309b23ceed085788acd248f031020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 064/138] fix: dimensions impacting an unknown simulation stage
 may affect all stages

---
 hermespy/core/pymonte/actors.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index b14aad5..49e50dd 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -415,19 +415,20 @@ class MonteCarloActor(Generic[MO]):
                 for d in reconfigured_dimensions:
                     grid_dimension = self.__grid[int(d)]
 
-                    if grid_dimension.first_impact is None:
+                    # Dimensions without impact or impacting an unknown stage may affect all stages
+                    if grid_dimension.first_impact not in self.__stage_identifiers:
                         first_impact = 0
 
-                    elif grid_dimension.first_impact in self.__stage_identifiers:
+                    else:
                         first_impact = min(
                             first_impact,
                             self.__stage_identifiers.index(grid_dimension.first_impact),
                         )
 
-                    if grid_dimension.last_impact is None:
+                    if grid_dimension.last_impact not in self.__stage_identifiers:
                         last_impact = self.__num_stages - 1
 
-                    elif grid_dimension.last_impact in self.__stage_identifiers:
+                    else:
                         last_impact = max(
                             last_impact, self.__stage_identifiers.index(grid_dimension.last_impact)
                         )
-- 
2.43.0


From fd9b883c98b265b17d171c6f06548c0313f6d8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 065/138] fix: repeated simulation stages are executed for all
 their arguments

---
 hermespy/core/pymonte/actors.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index 49e50dd..9026908 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -439,6 +439,13 @@ class MonteCarloActor(Generic[MO]):
                 if last_impact <= 0:
                     last_impact = self.__num_stages - 1
 
+                # Stages repeated for multiple arguments must be executed for each of them,
+                # since only the output of the most recent repetition is available for reuse
+                for stage_index, stage_identifier in enumerate(self.__stage_identifiers):
+                    if len(self.__stage_arguments.get(stage_identifier, [tuple()])) > 1:
+                        first_impact = min(first_impact, stage_index)
+                        last_impact = self.__num_stages - 1
+
                 artifacts: list[list[Artifact]] = []
                 self.__execute_stages(first_impact, last_impact, artifacts)
 
-- 
2.43.0


From 3e8e0753a9b554bd3aede3e59291c574ebb8e71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 066/138] fix: grid dimensions over several objects only skip
 stages unaffected for all of them

---
 hermespy/core/pymonte/grid.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/pymonte/grid.py b/hermespy/core/pymonte/grid.py
index 56b9db3..0c98bf3 100644
--- a/hermespy/core/pymonte/grid.py
+++ b/hermespy/core/pymonte/grid.py
@@ -337,6 +337,10 @@ class GridDimension(GridDimensionInfo):
         self.__first_impact = None
         self.__last_impact = None
 
+        # Impacts are only known if they are known for each considered object
+        first_impact_known = True
+        last_impact_known = True
+
         for considered_object in _considered_objects:
             # Make sure the dimension exists
             try:
@@ -357,9 +361,15 @@ class GridDimension(GridDimensionInfo):
                 raise ValueError("A simulation grid dimension must have at least one sample point")
 
             # Update impacts if the dimension is registered as a PyMonte simulation dimension
-            if RegisteredDimension.is_registered(dimension_registration):
+            if not RegisteredDimension.is_registered(dimension_registration):
+                first_impact_known = False
+                last_impact_known = False
+
+            else:
                 first_impact = dimension_registration.first_impact
                 last_impact = dimension_registration.last_impact
+                first_impact_known = first_impact_known and first_impact is not None
+                last_impact_known = last_impact_known and last_impact is not None
 
                 if self.__first_impact and first_impact != self.__first_impact:
                     raise ValueError(
@@ -394,6 +404,12 @@ class GridDimension(GridDimensionInfo):
                     self.__create_setter_lambda(considered_object, dimension),
                 )
 
+        if not first_impact_known:
+            self.__first_impact = None
+
+        if not last_impact_known:
+            self.__last_impact = None
+
         # Initialize base class
         GridDimensionInfo.__init__(
             self,
-- 
2.43.0


From 5f03f800db1454448ca3821f76add8ac97bfd0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 067/138] fix: a configured grid dimension title is kept for
 scalar dimensions

---
 hermespy/core/pymonte/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/pymonte/grid.py b/hermespy/core/pymonte/grid.py
index 0c98bf3..a5ab205 100644
--- a/hermespy/core/pymonte/grid.py
+++ b/hermespy/core/pymonte/grid.py
@@ -336,6 +336,7 @@ class GridDimension(GridDimensionInfo):
         self.__dimension = dimension
         self.__first_impact = None
         self.__last_impact = None
+        user_title = title
 
         # Impacts are only known if they are known for each considered object
         first_impact_known = True
@@ -396,7 +397,8 @@ class GridDimension(GridDimensionInfo):
                 np.isscalar(s.value if isinstance(s, SamplePoint) else s) for s in sample_points
             ):
                 self.__setter_lambdas += (dimension_value.__lshift__,)
-                title = dimension_value.title
+                if user_title is None:
+                    title = dimension_value.title
 
             # Otherwise, the dimension value is a regular attribute and we need to create a setter lambda
             else:
-- 
2.43.0


From 9032dea2eaec8f1ad26642c32d6cf63e8448c8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 068/138] fix: simulations generate drops at the configured
 interval

---
 hermespy/simulation/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/simulation.py b/hermespy/simulation/simulation.py
index 139fe3f..56e38ec 100644
--- a/hermespy/simulation/simulation.py
+++ b/hermespy/simulation/simulation.py
@@ -421,7 +421,7 @@ class Simulation(Pipeline[SimulationScenario, SimulatedDevice], MonteCarlo[Simul
         )
         stage_arguments = dict()
         if timestamps[-1] > 0.0:
-            stage_arguments["sample_trajectories"] = [(t,) for t in timestamps]
+            stage_arguments["sample_states"] = [(t,) for t in timestamps]
 
         if self.console_mode != ConsoleMode.SILENT:
             self.console.log(
@@ -429,7 +429,7 @@ class Simulation(Pipeline[SimulationScenario, SimulatedDevice], MonteCarlo[Simul
             )
 
         # Generate simulation result
-        result = self.simulate(SimulationActor)
+        result = self.simulate(SimulationActor, stage_arguments=stage_arguments)
 
         # Visualize results if the flag respective is enabled
         visualizations: Sequence[Visualization] = []
-- 
2.43.0


From ae90220a48295dab0aad18fc5c379b70bfd06bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 069/138] fix: plotted receiver operating characteristics cover
 all thresholds

---
 hermespy/radar/evaluators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/radar/evaluators.py b/hermespy/radar/evaluators.py
index caa6717..c34b550 100644
--- a/hermespy/radar/evaluators.py
+++ b/hermespy/radar/evaluators.py
@@ -615,8 +615,8 @@ class RocEvaluationResult(EvaluationResult[RocArtifact]):
         section_magnitudes = tuple(s.num_sample_points for s in self.grid)
         for section_indices, line in zip(np.ndindex(section_magnitudes), visualization.lines[0, 0]):
             # Select the graph line scalars
-            x_axis = probabilities[section_indices + (None, 1)]  # type: ignore[arg-type]
-            y_axis = probabilities[section_indices + (None, 0)]  # type: ignore[arg-type]
+            x_axis = probabilities[section_indices + (slice(None), 1)]  # type: ignore[arg-type]
+            y_axis = probabilities[section_indices + (slice(None), 0)]  # type: ignore[arg-type]
 
             # Update the respective line
             line.set_data(x_axis, y_axis)
-- 
2.43.0


From f617c02ea715d4d7184846bff65f1da39fbb2093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:21 +0000
Subject: [PATCH 070/138] fix: receiver operating characteristics of replayed
 scenarios contain the replayed artifacts

---
 hermespy/radar/evaluators.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hermespy/radar/evaluators.py b/hermespy/radar/evaluators.py
index c34b550..502d83c 100644
--- a/hermespy/radar/evaluators.py
+++ b/hermespy/radar/evaluators.py
@@ -1027,11 +1027,10 @@ class ReceiverOperatingCharacteristic(RadarEvaluator, Serializable):
         result = RocEvaluationResult(
             [GridDimensionInfo([SamplePoint(0)], "Scenario", "linear", ValueType.LIN)], None
         )
-        artifacts = np.empty(1, dtype=object)
-        artifacts[0] = [
-            ReceiverOperatingCharacteristic.__evaluation_from_receptions(h0, h1).artifact()
-            for h0, h1 in zip(null_receptions, alt_receptions)
-        ]
+        for h0, h1 in zip(null_receptions, alt_receptions):
+            evaluation = ReceiverOperatingCharacteristic.__evaluation_from_receptions(h0, h1)
+            result.add_artifact((0,), evaluation.artifact(), False)
+
         return result
 
     @classmethod
-- 
2.43.0


From 387716bc80dcc5cf19743126e84dd891b1c5c3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:08 +0000
Subject: [PATCH 071/138] fix: conventional beamforming focuses within the
 device's local coordinate frame

---
 hermespy/beamforming/conventional.py | 12 +++---------
 hermespy/simulation/beamforming.py   |  8 ++++++--
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/hermespy/beamforming/conventional.py b/hermespy/beamforming/conventional.py
index f462807..7fcfd27 100644
--- a/hermespy/beamforming/conventional.py
+++ b/hermespy/beamforming/conventional.py
@@ -76,11 +76,8 @@ class ConventionalBeamformer(TransmitBeamformer, ReceiveBeamformer):
             with the first dimension being the number of angles and the second dimension the number of antennas.
         """
 
-        # Query topology of receiving antenna ports
-        topology = (
-            np.array([p.global_position for p in array.receive_antennas], dtype=np.float64)
-            - array.global_position
-        )
+        # Query topology of receiving antenna ports within the array's local coordinate frame
+        topology = array.receive_topology
 
         # Build receive beamforming codebook of steering vectors for each angle of interest
         book = np.empty((angles.shape[0], array.num_receive_antennas), dtype=complex)
@@ -102,10 +99,7 @@ class ConventionalBeamformer(TransmitBeamformer, ReceiveBeamformer):
         azimuth, zenith = focus_angles[0, :]
 
         # Compute conventional beamformer weights
-        topology = (
-            np.array([p.global_position for p in array.transmit_antennas], dtype=np.float64)
-            - array.global_position
-        )
+        topology = array.transmit_topology
         direction = Direction.From_Spherical(azimuth, zenith)
         # Conventional steering vector
         weights = np.exp(-2j * pi * carrier_frequency / speed_of_light * (topology @ direction))
diff --git a/hermespy/simulation/beamforming.py b/hermespy/simulation/beamforming.py
index 0654a00..255dc92 100644
--- a/hermespy/simulation/beamforming.py
+++ b/hermespy/simulation/beamforming.py
@@ -55,8 +55,12 @@ class DeviceFocus(BeamFocus):
         transmitter_position = device.position
         receiver_position = self.focused_device.trajectory.sample(device.timestamp).pose.translation
 
-        direction = Direction.From_Cartesian(receiver_position - transmitter_position, True)
-        return direction.to_spherical()
+        # Angles are expressed in the local coordinate frame of the focusing device's antennas
+        global_direction = Direction.From_Cartesian(receiver_position - transmitter_position, True)
+        local_direction = device.antennas.backwards_transformation.transform_direction(
+            global_direction
+        )
+        return local_direction.to_spherical()
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-- 
2.43.0


From 19e0021dadd7abccba5b2f36fbbff477f53665fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 072/138] fix: null steering beamformer steers its nulls
 towards the intended directions

---
 .../beamforming/nullsteeringbeamformer.py     | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/hermespy/beamforming/nullsteeringbeamformer.py b/hermespy/beamforming/nullsteeringbeamformer.py
index 22e1260..16da3de 100644
--- a/hermespy/beamforming/nullsteeringbeamformer.py
+++ b/hermespy/beamforming/nullsteeringbeamformer.py
@@ -7,7 +7,12 @@ import numpy as np
 from scipy.linalg import pinvh
 
 from hermespy.beamforming import TransmitBeamformer, ReceiveBeamformer
-from hermespy.core import AntennaArrayState, DeserializationProcess, SerializationProcess
+from hermespy.core import (
+    AntennaArrayState,
+    AntennaMode,
+    DeserializationProcess,
+    SerializationProcess,
+)
 
 __author__ = "Alan Thomas"
 __copyright__ = "Copyright 2026, Barkhausen Institut gGmbH"
@@ -49,23 +54,27 @@ class NullSteeringBeamformer(TransmitBeamformer, ReceiveBeamformer):
 
     # calculate the null steering beamformer weights
     def _weights(
-        self, carrier_frequency: float, focus_angles: np.ndarray, array: AntennaArrayState
+        self,
+        carrier_frequency: float,
+        focus_angles: np.ndarray,
+        array: AntennaArrayState,
+        mode: AntennaMode,
     ) -> np.ndarray:
 
         a0 = array.spherical_phase_response(
-            carrier_frequency, focus_angles[0, 0], focus_angles[0, 1]
+            carrier_frequency, focus_angles[0, 0], focus_angles[0, 1], mode
         )
         a1 = array.spherical_phase_response(
-            carrier_frequency, focus_angles[1, 0], focus_angles[1, 1]
+            carrier_frequency, focus_angles[1, 0], focus_angles[1, 1], mode
         )
         a2 = array.spherical_phase_response(
-            carrier_frequency, focus_angles[2, 0], focus_angles[2, 1]
+            carrier_frequency, focus_angles[2, 0], focus_angles[2, 1], mode
         )
 
         A = np.array([a1, a2]).T
         PA = A.conj() @ pinvh(A.T @ A.conj(), check_finite=False) @ A.T
         Identity_Matrix = np.eye(PA.shape[0])
-        wns = (Identity_Matrix - PA) @ a0
+        wns = (Identity_Matrix - PA) @ a0.conj()
         wns /= np.linalg.norm(wns)
         return wns
 
@@ -78,7 +87,7 @@ class NullSteeringBeamformer(TransmitBeamformer, ReceiveBeamformer):
     ) -> np.ndarray:
 
         # Compute nullsteering beamformer weights
-        weights = self._weights(carrier_frequency, focus_angles, array)
+        weights = self._weights(carrier_frequency, focus_angles, array, AntennaMode.TX)
         # Weight the streams accordingly
         samples = weights[:, np.newaxis] @ samples
 
@@ -95,7 +104,7 @@ class NullSteeringBeamformer(TransmitBeamformer, ReceiveBeamformer):
         # Query the sensor array response vectors for the angles of interest and create a dictionary from it which contains the beamforming weights
         dictionary = np.empty((array.num_receive_antennas, angles.shape[0]), dtype=complex)
         for d, focus in enumerate(angles):
-            dictionary[:, d] = self._weights(carrier_frequency, focus, array)
+            dictionary[:, d] = self._weights(carrier_frequency, focus, array, AntennaMode.RX)
 
         beamformed_samples = dictionary.T @ samples
         return beamformed_samples[:, np.newaxis, :]
-- 
2.43.0


From e389e4f65419c9a5485465653ee8c38311c5de0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 073/138] fix: coordinate foci keep their coordinates' distance
 and serialization

---
 hermespy/beamforming/beamformer.py | 45 +++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/hermespy/beamforming/beamformer.py b/hermespy/beamforming/beamformer.py
index 0af6f71..d1f9f12 100644
--- a/hermespy/beamforming/beamformer.py
+++ b/hermespy/beamforming/beamformer.py
@@ -140,7 +140,7 @@ class SphericalFocus(BeamFocus):
 class CoordinateFocus(BeamFocus):
     """Focus the beamformer towards a certain Cartesian coordinate."""
 
-    __direction: Direction
+    __coordinates: np.ndarray | Direction
     __reference: Literal["global", "local"]
 
     def __init__(
@@ -149,7 +149,9 @@ class CoordinateFocus(BeamFocus):
         """
         Args:
 
-            coordinates: Cartesian coordinates in m.
+            coordinates:
+                Cartesian coordinates of the focused point in m.
+                If a direction is provided, the focused point is assumed to be infinitely far away.
             reference: Reference frame of the coordinates.
         """
 
@@ -157,18 +159,14 @@ class CoordinateFocus(BeamFocus):
         BeamFocus.__init__(self)
 
         # Initialize class members
-        self.__direction = (
-            coordinates
-            if isinstance(coordinates, Direction)
-            else Direction.From_Cartesian(coordinates, True)
-        )
+        self.__coordinates = coordinates
         self.__reference = reference
 
     @property
     def coordinates(self) -> np.ndarray:
         """Cartesian coordinates in m."""
 
-        return self.__direction.view(np.ndarray)
+        return self.__coordinates.view(np.ndarray)
 
     @property
     def reference(self) -> Literal["global", "local"]:
@@ -178,31 +176,44 @@ class CoordinateFocus(BeamFocus):
 
     @override
     def copy(self) -> CoordinateFocus:
-        return CoordinateFocus(self.__direction.copy(), self.__reference)
+        return CoordinateFocus(self.__coordinates.copy(), self.__reference)
 
     @override
     def spherical_angles(self, device: State) -> np.ndarray:
-        if self.reference == "local":
-            return self.__direction.to_spherical()
+        coordinates = self.__coordinates
 
-        elif self.reference == "global":
+        if self.reference == "global":
             transformation = device.antennas.backwards_transformation
-            local_direction = transformation.transform_direction(self.__direction)
-            return local_direction.to_spherical()
+            coordinates = (
+                transformation.transform_direction(coordinates)
+                if isinstance(coordinates, Direction)
+                else transformation.transform_position(coordinates)
+            )
 
-        else:
+        elif self.reference != "local":
             raise ValueError(f"Invalid reference frame '{self.reference}'")
 
+        direction = (
+            coordinates
+            if isinstance(coordinates, Direction)
+            else Direction.From_Cartesian(coordinates, True)
+        )
+        return direction.to_spherical()
+
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        process.serialize_array(self.__direction, "direction")
+        process.serialize_array(self.__coordinates, "coordinates")
+        process.serialize_integer(int(isinstance(self.__coordinates, Direction)), "is_direction")
         process.serialize_string(self.__reference, "reference")
 
     @override
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> CoordinateFocus:
+        coordinates = process.deserialize_array("coordinates", np.float64)
         return CoordinateFocus(
-            process.deserialize_array("direction", np.float64).view(Direction),
+            coordinates.view(Direction)
+            if process.deserialize_integer("is_direction")
+            else coordinates,
             process.deserialize_string("reference"),  # type: ignore[arg-type]
         )
 
-- 
2.43.0


From e6b857762ffceadc0aa1d894e1d9359c8423a42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 074/138] fix: block error rate of missing, partial and
 mismatched blocks

---
 hermespy/modem/evaluators.py | 40 ++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/hermespy/modem/evaluators.py b/hermespy/modem/evaluators.py
index a0a42b7..60dea6c 100644
--- a/hermespy/modem/evaluators.py
+++ b/hermespy/modem/evaluators.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 from abc import ABC, abstractmethod
+from itertools import zip_longest
 from typing_extensions import override
 
 import numpy as np
@@ -303,26 +304,25 @@ class BlockErrorEvaluator(CommunicationEvaluator, Serializable):
         # Retrieve transmittend and received data
         transmission, reception = self._fetch_dsp_results()
 
-        # Compare the decoded bit streams of each communication frame partioned into blocks into blocks
-        # Every block with at least one bit error is considered a block error and increases the error counter
-        num_tx_blocks = 0
-        for tx_frame in transmission.frames:
-            num_tx_blocks += tx_frame.bits.size // tx_frame.bit_block_size
-        num_rx_blocks = 0
-        for rx_frame in reception.frames:
-            num_rx_blocks += rx_frame.decoded_bits.size // rx_frame.bit_block_size
-
-        block_errors = np.ones(max(num_tx_blocks, num_rx_blocks), dtype=bool)
-        b = 0
-        for tx_frame, rx_frame in zip(transmission.frames, reception.frames):
-            tx_blocks = tx_frame.bits.reshape((-1, tx_frame.bit_block_size))
-            rx_blocks = rx_frame.decoded_bits.reshape((-1, rx_frame.bit_block_size))
-            num_blocks = max(tx_blocks.shape[0], rx_blocks.shape[0])
-
-            block_errors[b : b + num_blocks] = np.any(tx_blocks != rx_blocks, axis=1)
-            b += num_blocks
-
-        return BlockErrorEvaluation(block_errors)
+        # Compare the transmitted and received blocks of each frame.
+        # Blocks that were not received, or were received without being transmitted, are always in error.
+        block_errors: list[np.ndarray] = []
+        for tx_frame, rx_frame in zip_longest(transmission.frames, reception.frames):
+            tx_bits = np.empty(0) if tx_frame is None else tx_frame.bits
+            rx_bits = np.empty(0) if rx_frame is None else rx_frame.decoded_bits
+            block_size = rx_frame.bit_block_size if tx_frame is None else tx_frame.bit_block_size
+
+            num_common_bits = min(tx_bits.size, rx_bits.size)
+            bit_errors = np.ones(max(tx_bits.size, rx_bits.size), dtype=bool)
+            bit_errors[:num_common_bits] = tx_bits[:num_common_bits] != rx_bits[:num_common_bits]
+
+            if bit_errors.size > 0:
+                block_starts = np.arange(0, bit_errors.size, block_size)
+                block_errors.append(np.logical_or.reduceat(bit_errors, block_starts))
+
+        return BlockErrorEvaluation(
+            np.concatenate(block_errors) if len(block_errors) > 0 else np.empty(0, dtype=bool)
+        )
 
     @property
     def title(self) -> str:
-- 
2.43.0


From cbad13733b58ff53f739539b44e5ff7def367019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 075/138] fix: frame error rate doesn't broadcast differently
 sized frames

---
 hermespy/modem/evaluators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/modem/evaluators.py b/hermespy/modem/evaluators.py
index 60dea6c..522f66d 100644
--- a/hermespy/modem/evaluators.py
+++ b/hermespy/modem/evaluators.py
@@ -377,7 +377,7 @@ class FrameErrorEvaluator(CommunicationEvaluator, Serializable):
         # Compare the decoded bit streams of each communication frame
         # If they differ, increase the frame errror count
         for f, (tx_frame, rx_frame) in enumerate(zip(transmission.frames, reception.frames)):
-            frame_errors[f] = not np.array_equiv(tx_frame.bits, rx_frame.decoded_bits)
+            frame_errors[f] = not np.array_equal(tx_frame.bits, rx_frame.decoded_bits)
 
         return FrameErrorEvaluation(frame_errors)
 
-- 
2.43.0


From bf0ee594a93e8b062a3c2fa0187023ab6d87215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 076/138] fix: error vector magnitude of multi-stream symbols
 with different lengths

---
 hermespy/modem/evaluators.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/hermespy/modem/evaluators.py b/hermespy/modem/evaluators.py
index 522f66d..6461c2a 100644
--- a/hermespy/modem/evaluators.py
+++ b/hermespy/modem/evaluators.py
@@ -567,7 +567,19 @@ class ConstellationEVM(CommunicationEvaluator):
     def evaluate(self) -> EVMEvaluation:
         # Retrieve transmitted and received symbols
         transmission, reception = self._fetch_dsp_results()
-        return EVMEvaluation(transmission.symbols.raw, reception.equalized_symbols.raw)
+        transmitted_symbols = transmission.symbols.raw
+        received_symbols = reception.equalized_symbols.raw
+
+        # Compare only the leading symbols of each stream if the number of symbols differs
+        num_streams = transmitted_symbols.shape[0]
+        if num_streams > 1 and num_streams == received_symbols.shape[0]:
+            transmitted_symbols = transmitted_symbols.reshape((num_streams, -1))
+            received_symbols = received_symbols.reshape((num_streams, -1))
+            num_symbols = min(transmitted_symbols.shape[1], received_symbols.shape[1])
+            transmitted_symbols = transmitted_symbols[:, :num_symbols]
+            received_symbols = received_symbols[:, :num_symbols]
+
+        return EVMEvaluation(transmitted_symbols, received_symbols)
 
     @property
     @override
-- 
2.43.0


From c0fb5f57164331aafbde72563db486a1c2b1c4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 077/138] fix: sidelobe evaluation combines receptions with
 conjugated weights

---
 hermespy/simulation/evaluators/beamforming.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermespy/simulation/evaluators/beamforming.py b/hermespy/simulation/evaluators/beamforming.py
index 47c3e61..627c781 100644
--- a/hermespy/simulation/evaluators/beamforming.py
+++ b/hermespy/simulation/evaluators/beamforming.py
@@ -229,6 +229,10 @@ class SidelobeEvaluator(Evaluator, Serializable):
 
         weights = np.concatenate([focus_beamformer, self.__codebook], axis=0)
 
+        # Received signals are combined by the conjugate array response
+        if self.mode is AntennaMode.RX:
+            weights = weights.conj()
+
         beamformed_energy = np.zeros(weights.shape[0], dtype=np.float64)
         signal_energy: float = 0.0
         for block in samples.blocks:
-- 
2.43.0


From 6f79375ca707147b556aa3f08941e3d8a03eaef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 078/138] fix: receiver operating characteristic respects its
 configured number of thresholds

---
 hermespy/radar/evaluators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/radar/evaluators.py b/hermespy/radar/evaluators.py
index 502d83c..2dedf28 100644
--- a/hermespy/radar/evaluators.py
+++ b/hermespy/radar/evaluators.py
@@ -814,7 +814,7 @@ class ReceiverOperatingCharacteristic(RadarEvaluator, Serializable):
 
     @override
     def initialize_result(self, grid: Sequence[GridDimensionInfo]) -> RocEvaluationResult:
-        return RocEvaluationResult(grid, self)
+        return RocEvaluationResult(grid, self, self.__num_thresholds)
 
     @staticmethod
     def FromScenarios(
-- 
2.43.0


From 8c990d3181d4a78236707e07239f7d751471a1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 079/138] fix: radar root mean square error compares points in
 the receiver's coordinate frame

---
 hermespy/radar/evaluators.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hermespy/radar/evaluators.py b/hermespy/radar/evaluators.py
index 2dedf28..c981828 100644
--- a/hermespy/radar/evaluators.py
+++ b/hermespy/radar/evaluators.py
@@ -1231,9 +1231,14 @@ class RootMeanSquareError(RadarEvaluator, Serializable):
         point_cloud = self._fetch_pcl()
         channel_sample = self._fetch_channel()
 
-        # Consolide the ground truth
+        # Consolide the ground truth within the receiving radar's local coordinate frame
+        transformation = channel_sample.receiver_state.antennas.backwards_transformation
         ground_truth = np.array(
-            [p.ground_truth[0] for p in channel_sample.paths if p.ground_truth is not None]
+            [
+                transformation.transform_position(p.ground_truth[0])
+                for p in channel_sample.paths
+                if p.ground_truth is not None
+            ]
         )
         return RootMeanSquareEvaluation(point_cloud, ground_truth)
 
-- 
2.43.0


From 33f4778043ceb9ead20b120e324f7277332db354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 080/138] fix: PAPR and SI evaluators without data raise the
 documented error

---
 hermespy/core/evaluators.py                    | 2 ++
 hermespy/simulation/evaluators/interference.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/hermespy/core/evaluators.py b/hermespy/core/evaluators.py
index 21c8b52..8da2c30 100644
--- a/hermespy/core/evaluators.py
+++ b/hermespy/core/evaluators.py
@@ -406,6 +406,8 @@ class PAPR(ScalarEvaluator):
 
         # Initialize class members
         self.__direction = direction
+        self.__output = None
+        self.__input = None
 
         # Register hooks
         if direction == AntennaMode.TX:
diff --git a/hermespy/simulation/evaluators/interference.py b/hermespy/simulation/evaluators/interference.py
index 135572e..cd8d046 100644
--- a/hermespy/simulation/evaluators/interference.py
+++ b/hermespy/simulation/evaluators/interference.py
@@ -61,6 +61,7 @@ class SI(ScalarEvaluator, Serializable):
 
         # Register input hook
         self.__device = device
+        self._input = None
         self._input_hook = device.simulated_input_callbacks.add_callback(self.__input_callback)
 
     def __input_callback(self, input: ProcessedSimulatedDeviceInput) -> None:
-- 
2.43.0


From eed25cd672be873845ccc8786856d524357fafa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 081/138] fix: null hypothesis of radar channels is sampled at
 the time of the original sample

---
 hermespy/channel/radar/radar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/channel/radar/radar.py b/hermespy/channel/radar/radar.py
index f0d49ca..ce0e698 100644
--- a/hermespy/channel/radar/radar.py
+++ b/hermespy/channel/radar/radar.py
@@ -189,7 +189,7 @@ class RadarChannelSample(ChannelSample):
                 self.receiver_state,
                 self.carrier_frequency,
                 self.bandwidth,
-                0.0,
+                self.time,
             ),
         )
 
-- 
2.43.0


From bd2beeed5b48f611a4df93c5890665fffc21c673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 082/138] fix: self-interference evaluators support devices
 without leaking signals

---
 hermespy/simulation/evaluators/interference.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hermespy/simulation/evaluators/interference.py b/hermespy/simulation/evaluators/interference.py
index cd8d046..e13dab7 100644
--- a/hermespy/simulation/evaluators/interference.py
+++ b/hermespy/simulation/evaluators/interference.py
@@ -86,6 +86,10 @@ class SI(ScalarEvaluator, Serializable):
                 "Self-interference evaluator could not fetch input. Has the device received data?"
             )
 
+        # Devices without any leaking signal don't interfere with themselves
+        if self._input.leaking_signal is None:
+            return PowerEvaluation(np.zeros(self._input.baseband_signal.num_streams))
+
         return PowerEvaluation(self._input.leaking_signal.power)
 
     def __del__(self) -> None:
@@ -126,7 +130,7 @@ class SSINR(SI):
         noise_power = self._input.noise_realization.power
 
         # Power of the self-interference
-        si_power = self._input.leaking_signal.power
+        si_power = SI.evaluate(self).power
 
         # Power of the useful signal
         # ToDo: The definition of impinging signals is inconsistent
-- 
2.43.0


From ec4516a5d5f4bf79c43cbd4d38f756c317c89a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 083/138] fix: FMCW pulses keep their length for pulse
 repetition intervals without an integer sample count

---
 hermespy/radar/fmcw.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/hermespy/radar/fmcw.py b/hermespy/radar/fmcw.py
index 4a26a44..de41922 100644
--- a/hermespy/radar/fmcw.py
+++ b/hermespy/radar/fmcw.py
@@ -96,7 +96,7 @@ class FMCW(RadarWaveform):
 
     @override
     def estimate(self, signal: Signal, state: ReceiveState) -> np.ndarray:
-        num_pulse_samples = int(self.pulse_rep_interval * state.sampling_rate)
+        num_pulse_samples = self.__num_pulse_samples(state.sampling_rate)
         num_frame_samples = self.num_chirps * num_pulse_samples
 
         input_samples = (
@@ -174,7 +174,7 @@ class FMCW(RadarWaveform):
 
     @override
     def samples_per_frame(self, bandwidth: float, oversampling_factor: int) -> int:
-        return int(self.frame_duration(bandwidth) * bandwidth * oversampling_factor)
+        return self.num_chirps * self.__num_pulse_samples(bandwidth * oversampling_factor)
 
     @override
     def range_bins(self, bandwidth: float) -> np.ndarray:
@@ -279,6 +279,17 @@ class FMCW(RadarWaveform):
     def power(self) -> float:
         return 1.0
 
+    def __num_pulse_samples(self, sampling_rate: float) -> int:
+        """Number of samples within a single pulse repetition interval.
+
+        Args:
+            sampling_rate: Sampling rate in Hz.
+
+        Returns: Number of samples.
+        """
+
+        return int(self.pulse_rep_interval * sampling_rate)
+
     def __chirp_prototype(self, bandwidth: float, oversampling_factor: int) -> np.ndarray:
         """Prototype function to generate a single chirp.
 
@@ -310,9 +321,8 @@ class FMCW(RadarWaveform):
             RuntimeError: If the pulse repetition interval is smaller than the chirp duration.
         """
 
-        num_zero_samples = int(
-            (self.pulse_rep_interval - self.chirp_duration) * bandwidth * oversampling_factor
-        )
+        chirp = self.__chirp_prototype(bandwidth, oversampling_factor)
+        num_zero_samples = self.__num_pulse_samples(bandwidth * oversampling_factor) - len(chirp)
 
         if num_zero_samples < 0:
             raise RuntimeError(
@@ -320,7 +330,7 @@ class FMCW(RadarWaveform):
             )
 
         pulse = np.concatenate(
-            (self.__chirp_prototype(bandwidth, oversampling_factor), np.zeros(num_zero_samples))
+            (chirp, np.zeros(num_zero_samples))
         )
         return pulse
 
-- 
2.43.0


From 6acef46befab206a221509536d0b76307501114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 084/138] fix: FMCW velocity bins match the processed doppler
 spectrum

---
 hermespy/radar/fmcw.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hermespy/radar/fmcw.py b/hermespy/radar/fmcw.py
index de41922..79bcd4e 100644
--- a/hermespy/radar/fmcw.py
+++ b/hermespy/radar/fmcw.py
@@ -6,7 +6,7 @@ from typing_extensions import override
 
 import numpy as np
 from scipy.constants import speed_of_light, pi
-from scipy.fft import fft2, ifftshift
+from scipy.fft import fft2, fftshift
 from scipy.signal import decimate, resample_poly
 
 from hermespy.core import ReceiveState, Signal, SerializationProcess, TransmitState
@@ -132,7 +132,7 @@ class FMCW(RadarWaveform):
         num_bins = int(self.max_range(_adc_bandwidth) / self.range_resolution(state.bandwidth))
         transform = fft2(baseband_samples, (baseband_samples.shape[0], num_bins))
         # fft shift the Doppler components
-        transform = ifftshift(transform, axes=0)
+        transform = fftshift(transform, axes=0)
 
         return np.abs(transform) ** 2
 
@@ -164,9 +164,8 @@ class FMCW(RadarWaveform):
     @override
     def relative_doppler_bins(self) -> np.ndarray:
         return (
-            np.arange(self.num_chirps) * self.relative_doppler_resolution
-            - self.max_relative_doppler
-        )
+            np.arange(self.num_chirps) - self.num_chirps // 2
+        ) * self.relative_doppler_resolution
 
     @override
     def frame_duration(self, bandwidth: float) -> float:
-- 
2.43.0


From 9b74336a9b3d1789c6bbfcc265b217e6ad039fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 085/138] fix: OFDM radar velocity bins match the processed
 doppler spectrum

---
 hermespy/jcas/ofdm_radar.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hermespy/jcas/ofdm_radar.py b/hermespy/jcas/ofdm_radar.py
index d0578f9..7eeeb64 100644
--- a/hermespy/jcas/ofdm_radar.py
+++ b/hermespy/jcas/ofdm_radar.py
@@ -7,7 +7,7 @@ from typing_extensions import override
 
 import numpy as np
 from scipy.constants import speed_of_light
-from scipy.fft import ifft, fft, ifftshift
+from scipy.fft import fft, fftshift, ifft
 
 from hermespy.beamforming import ReceiveBeamformer
 from hermespy.core import DeserializationProcess, Serializable, ReceiveState, Signal, TransmitState
@@ -143,7 +143,7 @@ class OFDMRadar(DuplexJCASOperator[OFDMWaveform], Serializable):
         """
 
         # The maximum velocity is the wavelength divided by four times the pulse repetition interval
-        max_doppler = 1 / (4 * self.frame_duration(bandwidth))
+        max_doppler = self.waveform.words_per_frame / (4 * self.frame_duration(bandwidth))
         return max_doppler
 
     def relative_doppler_resolution(self, bandwidth: float) -> float:
@@ -200,7 +200,7 @@ class OFDMRadar(DuplexJCASOperator[OFDMWaveform], Serializable):
         )
 
         # Estimate range-power profile by equation (10)
-        power_profile = ifftshift(fft(ifft(normalized_symbols[0, ::], axis=1), axis=0), axes=0)
+        power_profile = fftshift(fft(ifft(normalized_symbols[0, ::], axis=1), axis=0), axes=0)
         return np.abs(power_profile)
 
     @override
@@ -219,9 +219,10 @@ class OFDMRadar(DuplexJCASOperator[OFDMWaveform], Serializable):
         range_bins = np.arange(self.waveform.num_subcarriers) * self.range_resolution(
             device.bandwidth
         )
-        doppler_bins = np.arange(self.waveform.words_per_frame) * self.relative_doppler_resolution(
-            device.bandwidth
-        ) - self.max_relative_doppler(device.bandwidth)
+        num_doppler_bins = self.waveform.words_per_frame
+        doppler_bins = (
+            np.arange(num_doppler_bins) - num_doppler_bins // 2
+        ) * self.relative_doppler_resolution(device.bandwidth)
 
         # Filter range for the minimum range
         min_range_index = ceil(self.min_range / self.range_resolution(device.bandwidth))
-- 
2.43.0


From 31f180dee3a244243e522759f03c942520375285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:18 +0000
Subject: [PATCH 086/138] fix: OFDM radar range bins match the processed delay
 spectrum

---
 hermespy/jcas/ofdm_radar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/jcas/ofdm_radar.py b/hermespy/jcas/ofdm_radar.py
index 7eeeb64..a5f4e0d 100644
--- a/hermespy/jcas/ofdm_radar.py
+++ b/hermespy/jcas/ofdm_radar.py
@@ -237,7 +237,7 @@ class OFDMRadar(DuplexJCASOperator[OFDMWaveform], Serializable):
             line_estimate = self.__estimate_range(
                 transmitted_symbols, line, device.bandwidth, device.oversampling_factor
             )
-            cube_data[angle_idx, ::] = line_estimate[min_range_index:]
+            cube_data[angle_idx, ::] = line_estimate[:, min_range_index:]
 
         # Create radar cube object
         cube = RadarCube(
-- 
2.43.0


From 9dc4efac21a4e895ae50786637199dce20260616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:18 +0000
Subject: [PATCH 087/138] fix: matched filter JCAS range bins match the
 processed delays

---
 hermespy/jcas/matched_filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/jcas/matched_filtering.py b/hermespy/jcas/matched_filtering.py
index 4d245ec..da80aba 100644
--- a/hermespy/jcas/matched_filtering.py
+++ b/hermespy/jcas/matched_filtering.py
@@ -232,7 +232,7 @@ class MatchedFilterJcas(
         )
 
         # Filter range for the minimum range
-        min_range_bin = ceil(2 * self.min_range / resolution)
+        min_range_bin = ceil(self.min_range / resolution)
 
         # Create the cube object
         range_bins = lags[min_range_bin:num_propagated_samples] * resolution
-- 
2.43.0


From 056d3e12af92884dac8e289dfa5c828bdde7ff1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:18 +0000
Subject: [PATCH 088/138] fix: matched filter JCAS correlates with its most
 recent transmission

---
 hermespy/jcas/matched_filtering.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/hermespy/jcas/matched_filtering.py b/hermespy/jcas/matched_filtering.py
index da80aba..c356f5f 100644
--- a/hermespy/jcas/matched_filtering.py
+++ b/hermespy/jcas/matched_filtering.py
@@ -180,19 +180,21 @@ class MatchedFilterJcas(
                 dtype=np.complex128,
             )
             for t, angle in enumerate(angle_bins):
-                phase_response = state.antennas.horizontal_phase_response(
-                    self.__last_transmission.signal.carrier_frequency,
+                phase_response = state.antennas.spherical_phase_response(
+                    state.carrier_frequency,
                     angle[0],
                     angle[1],
                     AntennaMode.TX,
                 )
                 transmitted_samples[t, :] = (
-                    phase_response.conj() @ self.__last_transmission.signal.view(np.ndarray)
+                    phase_response @ self.__last_transmission.signal.view(np.ndarray)
                 )
 
         # For a single transmit antenna, this is not required
         else:
-            transmitted_samples = self.__last_transmission.signal.view(np.ndarray)[[0], :]
+            transmitted_samples = np.repeat(
+                self.__last_transmission.signal.view(np.ndarray)[[0], :], angle_bins.shape[0], axis=0
+            )
 
         doppler_bins = (
             state.carrier_frequency
@@ -218,11 +220,15 @@ class MatchedFilterJcas(
                 / state.sampling_rate
             )
 
-            cube_data[:, d, :] = abs(
-                correlate(beamformed_samples, doppler_shifted_samples, mode="valid", method="fft")[
-                    :, :num_propagated_samples
-                ]
-            )
+            # Correlate each angle of interest with the signal transmitted towards it
+            for a, (rx_samples, tx_samples) in enumerate(
+                zip(beamformed_samples, doppler_shifted_samples)
+            ):
+                cube_data[a, d, :] = abs(
+                    correlate(rx_samples, tx_samples, mode="valid", method="fft")[
+                        :num_propagated_samples
+                    ]
+                )
 
         # Normalize and convert to power
         cube_data = cube_data**2 / self.__last_transmission.signal.num_samples
-- 
2.43.0


From efbf9c788ef36bfdb8a59b088a824c03b2e97100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:18 +0000
Subject: [PATCH 089/138] fix: max detector reports the maximum's own position

---
 hermespy/radar/detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/radar/detection.py b/hermespy/radar/detection.py
index 128c90c..7370dbc 100644
--- a/hermespy/radar/detection.py
+++ b/hermespy/radar/detection.py
@@ -448,7 +448,7 @@ class MaxDetector(RadarDetector, Serializable):
         cloud = RadarPointCloud(cube.range_bins.max())
         cloud.add_point(
             PointDetection.FromSpherical(
-                angles_of_arrival[0], angles_of_arrival[1], range, velocity, point_power
+                angles_of_arrival[1], angles_of_arrival[0], range, velocity, point_power
             )
         )
 
-- 
2.43.0


From 472e76467bd7723384fcdf3c3f735f6f3da15714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:18 +0000
Subject: [PATCH 090/138] fix: single-bin radar cubes

---
 hermespy/radar/radar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/radar/radar.py b/hermespy/radar/radar.py
index e495aa5..3cde8a6 100644
--- a/hermespy/radar/radar.py
+++ b/hermespy/radar/radar.py
@@ -478,7 +478,7 @@ class RadarBase(Generic[RTT, RRT], Transmitter[RTT], Receiver[RRT]):
         # Build the radar cube by generating a beam-forming line over all angles of interest
         angles_of_interest = (
             np.array([[0.0, 0.0]], dtype=float)
-            if self.receive_beamformer is None
+            if self.receive_beamformer is None or signal.num_streams == 1
             else self.receive_beamformer.probe_focus_points[:, 0, :]
         )
 
-- 
2.43.0


From 8c37406b270dd854c2a65eb8976176b853908105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:25 +0000
Subject: [PATCH 091/138] fix: FMCW range bins and spectra cover the ADC's
 complete range

---
 hermespy/radar/fmcw.py | 40 ++++++++++++++--------------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/hermespy/radar/fmcw.py b/hermespy/radar/fmcw.py
index 79bcd4e..7e0e4ae 100644
--- a/hermespy/radar/fmcw.py
+++ b/hermespy/radar/fmcw.py
@@ -1,13 +1,12 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import annotations
-from fractions import Fraction
 from typing_extensions import override
 
 import numpy as np
 from scipy.constants import speed_of_light, pi
-from scipy.fft import fft2, fftshift
-from scipy.signal import decimate, resample_poly
+from scipy.fft import fft, fftshift
+from scipy.signal import zoom_fft
 
 from hermespy.core import ReceiveState, Signal, SerializationProcess, TransmitState
 from .radar import RadarWaveform
@@ -115,22 +114,16 @@ class FMCW(RadarWaveform):
         chirp_stack = chirp_stack[:, : len(chirp_prototype)]
         baseband_samples = chirp_stack.conj() * chirp_prototype
 
-        if self.adc_sampling_rate > 0 and self.adc_sampling_rate < state.sampling_rate:
-            downsampling_rate = Fraction(
-                self.adc_sampling_rate / state.sampling_rate
-            ).limit_denominator(1000)
-            baseband_samples = resample_poly(
-                baseband_samples, downsampling_rate.numerator, downsampling_rate.denominator, axis=1
-            )
-            _adc_bandwidth = self.adc_sampling_rate
-        else:
-            baseband_samples = decimate(
-                baseband_samples, state.oversampling_factor, axis=1, zero_phase=False
-            )
-            _adc_bandwidth = state.bandwidth
+        # Evaluate the beat frequencies visible within the bandwidth of the (virtual) ADC
+        # A beat frequency is always non-negative and grows linearly with the respective range
+        adc_bandwidth = self.adc_sampling_rate if self.adc_sampling_rate > 0 else state.bandwidth
+        num_bins = len(self.range_bins(state.bandwidth))
+        range_transform = zoom_fft(
+            baseband_samples, adc_bandwidth, num_bins, fs=state.sampling_rate, endpoint=False, axis=1
+        )
+        range_transform *= adc_bandwidth / state.sampling_rate
 
-        num_bins = int(self.max_range(_adc_bandwidth) / self.range_resolution(state.bandwidth))
-        transform = fft2(baseband_samples, (baseband_samples.shape[0], num_bins))
+        transform = fft(range_transform, axis=0)
         # fft shift the Doppler components
         transform = fftshift(transform, axes=0)
 
@@ -177,15 +170,10 @@ class FMCW(RadarWaveform):
 
     @override
     def range_bins(self, bandwidth: float) -> np.ndarray:
-        # The actual bandwidth may be limited by the ADC assumptions
-        adc_bandwidth = (
-            bandwidth
-            if self.adc_sampling_rate <= FMCW.__DERIVE_SAMPLING_RATE
-            else self.adc_sampling_rate
-        )
-        max_range = self.max_range(adc_bandwidth)
+        # The maximal range is limited by the ADC's sampling rate
+        max_range = self.max_range(bandwidth)
         num_bins = int(max_range / self.range_resolution(bandwidth))
-        return np.linspace(0, max_range, num_bins)
+        return np.linspace(0, max_range, num_bins, endpoint=False)
 
     @property
     def num_chirps(self) -> int:
-- 
2.43.0


From 15516d3411a6443973afb9a7b495de87aec231eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:20 +0000
Subject: [PATCH 092/138] fix: operators draw random numbers of their device

---
 hermespy/core/device.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hermespy/core/device.py b/hermespy/core/device.py
index c13f1d3..054cf18 100644
--- a/hermespy/core/device.py
+++ b/hermespy/core/device.py
@@ -818,6 +818,9 @@ class DSPSlot(Generic[DSPType], Sequence[DSPType]):
 
         self.__dsp_algorithms.append(operator)
 
+        # Registered operators draw from the device's random stream
+        operator.random_mother = self.__device
+
     def remove(self, operator: DSPType) -> None:
         """Remove an operator from this slot.
 
-- 
2.43.0


From db236f4bd4b871a03da6d0f4f14632fcb93cb74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:20 +0000
Subject: [PATCH 093/138] fix: blocks of an RF chain draw random numbers of
 their chain

---
 hermespy/simulation/rf/chain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hermespy/simulation/rf/chain.py b/hermespy/simulation/rf/chain.py
index 05811a9..bb13d9e 100644
--- a/hermespy/simulation/rf/chain.py
+++ b/hermespy/simulation/rf/chain.py
@@ -425,6 +425,9 @@ class RFChain(RandomNode, Serializable):
         block_reference = RFBlockReference(block)
         self.__block_references.append(block_reference)
 
+        # Blocks draw from the chain's random stream
+        block.random_mother = self
+
         # Add blocks without RF input ports to the origin blocks list
         if block.num_input_ports < 1:
             self.__rf_origin_blocks.append(block_reference)
-- 
2.43.0


From a740e10701113da2b92c5f24817090ab876b7c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:20 +0000
Subject: [PATCH 094/138] fix: trigger realizations of transmissions are drawn
 from the device

---
 hermespy/simulation/simulated_device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 45b7cee..5dd1b45 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -1675,7 +1675,7 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
 
         # Generate a new trigger realization of none was provided
         if trigger_realization is None:
-            trigger_realization = self.trigger_model.realize()
+            trigger_realization = self.trigger_model.realize(self._rng)
 
         # Apply the trigger delay to emerging and leaking signals
         for signal in chain(emerging_signals, leaking_signals):
-- 
2.43.0


From 84b5063f7416412efe4a30bee2b0ed5712856e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:20 +0000
Subject: [PATCH 095/138] fix: random encoders draw from their manager

---
 hermespy/fec/coding.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermespy/fec/coding.py b/hermespy/fec/coding.py
index 6f579c6..1b0530e 100644
--- a/hermespy/fec/coding.py
+++ b/hermespy/fec/coding.py
@@ -205,6 +205,10 @@ class EncoderManager(RandomNode, Serializable):
         if hasattr(encoder, "manager"):
             encoder.manager = self
 
+        # Random encoders draw from this pipeline's random stream
+        if isinstance(encoder, RandomNode):
+            encoder.random_mother = self
+
         # Add new encoder to the queue of configured encoders
         self._encoders.append(encoder)
         self._encoders = self.__execution_order()
-- 
2.43.0


From 85e995f68efdfc3b8cbebe8fdd15845146193ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:20 +0000
Subject: [PATCH 096/138] fix: default channels draw random numbers of their
 scenario

---
 hermespy/simulation/scenario.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermespy/simulation/scenario.py b/hermespy/simulation/scenario.py
index 4c28e11..a3d82f5 100644
--- a/hermespy/simulation/scenario.py
+++ b/hermespy/simulation/scenario.py
@@ -221,6 +221,7 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
 
         # Initialize base class
         Scenario.__init__(self, *args, **kwargs)
+        self.__default_channel.scenario = self
 
         # Initialize class attributes
         self.noise_level = noise_level  # type: ignore[operator]
-- 
2.43.0


From cc40b06692eaba9e37561154b3f389d12538f458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:20 +0000
Subject: [PATCH 097/138] fix: random line of sight angles are drawn per
 realization

---
 hermespy/channel/fading/cost259.py     | 5 +++--
 hermespy/channel/fading/exponential.py | 5 +++--
 hermespy/channel/fading/fading.py      | 2 +-
 hermespy/channel/fading/tdl.py         | 5 +++--
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/hermespy/channel/fading/cost259.py b/hermespy/channel/fading/cost259.py
index b9fe1aa..d3d6819 100644
--- a/hermespy/channel/fading/cost259.py
+++ b/hermespy/channel/fading/cost259.py
@@ -240,7 +240,8 @@ class Cost259(MultipathFadingChannel):
         process.serialize_object(self.model_type, "model_type")
         process.serialize_floating(self.correlation_distance, "correlation_distance")
         process.serialize_integer(self.num_sinusoids, "num_sinusoids")
-        process.serialize_floating(self.los_angle, "los_angle")
+        if self.los_angle is not None:
+            process.serialize_floating(self.los_angle, "los_angle")
         process.serialize_floating(self.doppler_frequency, "doppler_frequency")
         process.serialize_floating(self.los_doppler_frequency, "los_doppler_frequency")
         if self.antenna_correlation is not None:
@@ -256,7 +257,7 @@ class Cost259(MultipathFadingChannel):
                 "correlation_distance", cls._DEFAULT_DECORRELATION_DISTANCE
             ),
             num_sinusoids=process.deserialize_integer("num_sinusoids", cls._DEFAULT_NUM_SINUSOIDS),
-            los_angle=process.deserialize_floating("los_angle"),
+            los_angle=process.deserialize_floating("los_angle", None),
             doppler_frequency=process.deserialize_floating(
                 "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
             ),
diff --git a/hermespy/channel/fading/exponential.py b/hermespy/channel/fading/exponential.py
index ae91f85..e3857bf 100644
--- a/hermespy/channel/fading/exponential.py
+++ b/hermespy/channel/fading/exponential.py
@@ -140,7 +140,8 @@ class Exponential(MultipathFadingChannel):
         process.serialize_floating(self.rms_delay, "rms_delay")
         process.serialize_floating(self.correlation_distance, "correlation_distance")
         process.serialize_integer(self.num_sinusoids, "num_sinusoids")
-        process.serialize_floating(self.los_angle, "los_angle")
+        if self.los_angle is not None:
+            process.serialize_floating(self.los_angle, "los_angle")
         process.serialize_floating(self.doppler_frequency, "doppler_frequency")
         process.serialize_floating(self.los_doppler_frequency, "los_doppler_frequency")
         if self.antenna_correlation is not None:
@@ -157,7 +158,7 @@ class Exponential(MultipathFadingChannel):
                 "correlation_distance", cls._DEFAULT_DECORRELATION_DISTANCE
             ),
             num_sinusoids=process.deserialize_integer("num_sinusoids", cls._DEFAULT_NUM_SINUSOIDS),
-            los_angle=process.deserialize_floating("los_angle"),
+            los_angle=process.deserialize_floating("los_angle", None),
             doppler_frequency=process.deserialize_floating(
                 "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
             ),
diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index ae6f472..d66e8eb 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -722,7 +722,7 @@ class MultipathFadingChannel(
         self.__power_profile = self.__power_profile[sorting]
         self.__rice_factors = self.__rice_factors[sorting]
         self.__num_sinusoids = num_sinusoids
-        self.los_angle = self._rng.uniform(-pi, pi) if los_angle is None else los_angle
+        self.los_angle = los_angle
         self.doppler_frequency = doppler_frequency
         self.__los_doppler_frequency = los_doppler_frequency
 
diff --git a/hermespy/channel/fading/tdl.py b/hermespy/channel/fading/tdl.py
index 8716f6a..7fe995d 100644
--- a/hermespy/channel/fading/tdl.py
+++ b/hermespy/channel/fading/tdl.py
@@ -414,7 +414,8 @@ class TDL(MultipathFadingChannel):
         process.serialize_floating(self.rms_delay, "rms_delay")
         process.serialize_floating(self.correlation_distance, "correlation_distance")
         process.serialize_integer(self.num_sinusoids, "num_sinusoids")
-        process.serialize_floating(self.los_angle, "los_angle")
+        if self.los_angle is not None:
+            process.serialize_floating(self.los_angle, "los_angle")
         process.serialize_floating(self.doppler_frequency, "doppler_frequency")
         process.serialize_floating(self.los_doppler_frequency, "los_doppler_frequency")
         if self.antenna_correlation is not None:
@@ -431,7 +432,7 @@ class TDL(MultipathFadingChannel):
                 "correlation_distance", cls._DEFAULT_DECORRELATION_DISTANCE
             ),
             num_sinusoids=process.deserialize_integer("num_sinusoids", cls._DEFAULT_NUM_SINUSOIDS),
-            los_angle=process.deserialize_floating("los_angle"),
+            los_angle=process.deserialize_floating("los_angle", None),
             doppler_frequency=process.deserialize_floating(
                 "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
             ),
-- 
2.43.0


From d0d950f447f29238bb12a952eba886a4c50f5155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:20 +0000
Subject: [PATCH 098/138] fix: random selective leakage is drawn from the
 device

---
 hermespy/simulation/isolation/selective.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/isolation/selective.py b/hermespy/simulation/isolation/selective.py
index 3c47e9c..ded871a 100644
--- a/hermespy/simulation/isolation/selective.py
+++ b/hermespy/simulation/isolation/selective.py
@@ -85,7 +85,7 @@ class SelectiveLeakage(Isolation):
         Returns: An initialized selective frequency model.
         """
 
-        frequency_response = np.random.normal(
+        frequency_response = device._rng.normal(
             np.sqrt(0.5) * mean,
             variance,
             (
@@ -93,7 +93,7 @@ class SelectiveLeakage(Isolation):
                 device.antennas.num_transmit_antennas,
                 num_samples,
             ),
-        ) + 1j * np.random.normal(
+        ) + 1j * device._rng.normal(
             np.sqrt(0.5) * mean,
             variance,
             (
-- 
2.43.0


From 922e6e686842959fc0cd095d733a97db2fb81ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:20 +0000
Subject: [PATCH 099/138] fix: random nodes draw from their mother

---
 hermespy/core/random_node.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermespy/core/random_node.py b/hermespy/core/random_node.py
index 4447dd5..dfef8a8 100644
--- a/hermespy/core/random_node.py
+++ b/hermespy/core/random_node.py
@@ -86,6 +86,10 @@ class RandomNode(object):
         self.seed = seed
         self.__mother_node = mother_node
 
+        # Nodes without a dedicated seed draw from their mother's random stream
+        if mother_node is not None and seed is None:
+            self.__generator = None
+
     @property
     def _rng(self) -> Generator:
         """Random number generator.
-- 
2.43.0


From 3f1276990e9348961e9c8528012bba2036374dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 100/138] fix: radar transmissions announce their frame
 duration

---
 hermespy/radar/radar.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/hermespy/radar/radar.py b/hermespy/radar/radar.py
index 3cde8a6..e6a50d6 100644
--- a/hermespy/radar/radar.py
+++ b/hermespy/radar/radar.py
@@ -697,6 +697,17 @@ class Radar(RadarBase[RadarTransmission, RadarReception], Serializable):
     def waveform(self, value: RadarWaveform | None) -> None:
         self.__waveform = value
 
+    def frame_duration(self, bandwidth: float) -> float:
+        """Duration of a single radar frame in seconds.
+
+        Zero if no :attr:`waveform<.waveform>` is configured.
+
+        Args:
+            bandwidth: Bandwidth of the radar waveform in Hz.
+        """
+
+        return 0.0 if self.waveform is None else self.waveform.frame_duration(bandwidth)
+
     def max_range(self, bandwidth: float) -> float:
         """The radar's maximum detectable range in meters.
 
-- 
2.43.0


From 4638058083a8ac17500c112545920a9c79fd43f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 101/138] fix: selective leakage of empty signals

---
 hermespy/simulation/isolation/selective.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/isolation/selective.py b/hermespy/simulation/isolation/selective.py
index ded871a..28c4cb5 100644
--- a/hermespy/simulation/isolation/selective.py
+++ b/hermespy/simulation/isolation/selective.py
@@ -120,12 +120,17 @@ class SelectiveLeakage(Isolation):
         return self.__leakage_response
 
     def _leak(self, signal: Signal) -> Signal:
-        num_leaked_samples = self.leakage_response.shape[2] + signal.num_samples - 1
+        # Nothing leaks if nothing is transmitted
+        num_leaked_samples = (
+            self.leakage_response.shape[2] + signal.num_samples - 1 if signal.num_samples > 0 else 0
+        )
         leaking_samples = np.zeros(
             (self.leakage_response.shape[0], num_leaked_samples), dtype=np.complex128
         )
 
-        for m, n in np.ndindex(self.leakage_response.shape[0], signal.num_streams):
+        for m, n in np.ndindex(
+            self.leakage_response.shape[0], signal.num_streams if signal.num_samples > 0 else 0
+        ):
             # The leaked signal is the convolution of the transmitted signal with the leakage response
             leaking_samples[m, :] += convolve(
                 self.leakage_response[m, n, :],
-- 
2.43.0


From df0271bd3384fe574a89ec774c3ec170e43bae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 102/138] fix: silent transmitters announce their frame
 duration

---
 hermespy/core/operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hermespy/core/operators.py b/hermespy/core/operators.py
index 6f89b06..a078d76 100644
--- a/hermespy/core/operators.py
+++ b/hermespy/core/operators.py
@@ -71,6 +71,9 @@ class SilentTransmitter(StaticOperator, Transmitter[Transmission], Serializable)
     def power(self) -> float:
         return 0.0
 
+    def frame_duration(self, bandwidth: float) -> float:
+        return self.num_samples / bandwidth
+
     @override
     def _transmit(self, state: TransmitState, duration: float) -> Transmission:
         # Compute the number of samples to be transmitted
-- 
2.43.0


From 8f74a640327be0916feb200e8cdde8d810cb9818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 103/138] fix: targets of radar channels are processed in the
 order they were added

---
 hermespy/channel/radar/multi.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/hermespy/channel/radar/multi.py b/hermespy/channel/radar/multi.py
index c471521..20a4ca6 100644
--- a/hermespy/channel/radar/multi.py
+++ b/hermespy/channel/radar/multi.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 from abc import abstractmethod
+from collections.abc import Iterable, Set as AbstractSet
 from typing import List, Set, Sequence
 from typing_extensions import override
 
@@ -332,7 +333,7 @@ class MultiTargetRadarChannelRealization(RadarChannelRealization):
 
     __consistent_realization: ConsistentRealization
     __phase_variable: ConsistentUniform
-    __targets: Set[RadarTarget]
+    __targets: dict[RadarTarget, None]  # Ordered set, the order of superposition must be reproducible
     __interference: bool
     __attenuate: bool
 
@@ -340,7 +341,7 @@ class MultiTargetRadarChannelRealization(RadarChannelRealization):
         self,
         consistent_realization: ConsistentRealization,
         phase_variable: ConsistentUniform,
-        targets: Set[RadarTarget],
+        targets: Iterable[RadarTarget],
         interference: bool,
         attenuate: bool,
         sample_hooks: Set[ChannelSampleHook[RadarChannelSample]],
@@ -353,7 +354,7 @@ class MultiTargetRadarChannelRealization(RadarChannelRealization):
         # Initialize class attributes
         self.__consistent_realization = consistent_realization
         self.__phase_variable = phase_variable
-        self.__targets = set(targets)
+        self.__targets = dict.fromkeys(targets)
         self.__interference = interference
         self.__attenuate = attenuate
 
@@ -448,7 +449,7 @@ class MultiTargetRadarChannelRealization(RadarChannelRealization):
         return cls(
             process.deserialize_object("consistent_realization", ConsistentRealization),
             process.deserialize_object("phase_variable", ConsistentUniform),
-            set(process.deserialize_object_sequence("targets", RadarTarget)),
+            process.deserialize_object_sequence("targets", RadarTarget),
             bool(process.deserialize_integer("interference")),
             bool(process.deserialize_integer("attenuate")),
             set(),
@@ -465,7 +466,7 @@ class MultiTargetRadarChannel(RadarChannelBase[MultiTargetRadarChannelRealizatio
     Only applies in the bistatic case, where transmitter and receiver are two dedicated device instances.
     """
 
-    __targets: Set[RadarTarget]
+    __targets: dict[RadarTarget, None]  # Ordered set, the order of superposition must be reproducible
 
     def __init__(
         self,
@@ -504,7 +505,7 @@ class MultiTargetRadarChannel(RadarChannelBase[MultiTargetRadarChannelRealizatio
         # Initialize attributes
         self.interference = interference
         self.decorrelation_distance = decorrelation_distance
-        self.__targets = set()
+        self.__targets = {}
 
         self.__consistent_generator = ConsistentGenerator(self)
         self.__phase_variable = self.__consistent_generator.uniform()
@@ -528,10 +529,10 @@ class MultiTargetRadarChannel(RadarChannelBase[MultiTargetRadarChannelRealizatio
         self.__decorrelation_distance = value
 
     @property
-    def targets(self) -> Set[RadarTarget]:
+    def targets(self) -> AbstractSet[RadarTarget]:
         """Set of targets considered within the radar channel."""
 
-        return self.__targets
+        return self.__targets.keys()
 
     def add_target(self, target: RadarTarget) -> None:
         """Add a new target to the radar channel.
@@ -543,7 +544,7 @@ class MultiTargetRadarChannel(RadarChannelBase[MultiTargetRadarChannelRealizatio
         """
 
         if target not in self.targets:
-            self.__targets.add(target)
+            self.__targets[target] = None
 
     def make_target(
         self, moveable: Moveable, cross_section: RadarCrossSectionModel, *args, **kwargs
-- 
2.43.0


From 6e0422b7602b8b4983ab611b3a648ec9801b6109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 104/138] fix: devices of trigger groups are processed in the
 order they were added

---
 hermespy/simulation/simulated_device.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 5dd1b45..8011c9b 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -2,9 +2,9 @@
 
 from __future__ import annotations
 from abc import abstractmethod
-from collections.abc import Sequence
+from collections.abc import Sequence, Set as AbstractSet
 from itertools import chain
-from typing import Set, Type
+from typing import Type
 from typing_extensions import override
 
 import numpy as np
@@ -162,14 +162,14 @@ class TriggerRealization(Serializable):
 class TriggerModel(Serializable, RandomNode):
     """Base class for all trigger models."""
 
-    __devices: Set[SimulatedDevice]
+    __devices: dict[SimulatedDevice, None]  # Ordered set, the first device must be reproducible
 
     def __init__(self) -> None:
         # Initialize base classes
         RandomNode.__init__(self)
 
         # Initialize class attributes
-        self.__devices = set()
+        self.__devices = {}
 
     def add_device(self, device: SimulatedDevice) -> None:
         """Add a new device to be controlled by this trigger.
@@ -182,7 +182,7 @@ class TriggerModel(Serializable, RandomNode):
         if device.trigger_model is not self:
             device.trigger_model = self
 
-        self.__devices.add(device)
+        self.__devices[device] = None
 
     def remove_device(self, device: SimulatedDevice) -> None:
         """Remove a device from being controlled by this trigger.
@@ -192,7 +192,7 @@ class TriggerModel(Serializable, RandomNode):
             device: The device to be removed.
         """
 
-        self.__devices.discard(device)
+        self.__devices.pop(device, None)
 
     @property
     def num_devices(self) -> int:
@@ -201,10 +201,10 @@ class TriggerModel(Serializable, RandomNode):
         return len(self.__devices)
 
     @property
-    def devices(self) -> Set[SimulatedDevice]:
+    def devices(self) -> AbstractSet[SimulatedDevice]:
         """Set of devices controlled by this trigger."""
 
-        return self.__devices
+        return self.__devices.keys()
 
     @abstractmethod
     def realize(self, rng: np.random.Generator | None = None) -> TriggerRealization:
-- 
2.43.0


From 48c9a73aae47e2cdb0e0edcc80db81751b807b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 105/138] fix: processing results do not share memory with
 their inputs

---
 hermespy/fec/cyclic_redundancy_check.py         | 2 +-
 hermespy/fec/repetition_encoder.py              | 2 +-
 hermespy/modem/waveform.py                      | 4 ++--
 hermespy/modem/waveform_chirp_fsk.py            | 4 ++--
 hermespy/modem/waveform_single_carrier.py       | 2 +-
 hermespy/modem/waveforms/orthogonal/channel.py  | 2 +-
 hermespy/radar/radar.py                         | 2 +-
 hermespy/simulation/modem/channel_estimation.py | 4 ++--
 hermespy/simulation/rf/noise/model.py           | 2 +-
 9 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/hermespy/fec/cyclic_redundancy_check.py b/hermespy/fec/cyclic_redundancy_check.py
index 435a33f..170911c 100644
--- a/hermespy/fec/cyclic_redundancy_check.py
+++ b/hermespy/fec/cyclic_redundancy_check.py
@@ -64,7 +64,7 @@ class CyclicRedundancyCheck(Encoder, RandomNode, Serializable):
         return np.append(data, self._rng.integers(0, 2, self.__check_block_size))
 
     def decode(self, code: np.ndarray) -> np.ndarray:
-        return code[: self.__bit_block_size]
+        return code[: self.__bit_block_size].copy()
 
     @property
     def bit_block_size(self) -> int:
diff --git a/hermespy/fec/repetition_encoder.py b/hermespy/fec/repetition_encoder.py
index efc1374..eefa634 100644
--- a/hermespy/fec/repetition_encoder.py
+++ b/hermespy/fec/repetition_encoder.py
@@ -87,7 +87,7 @@ class RepetitionEncoder(Encoder, Serializable):
 
     def decode(self, encoded_bits: np.ndarray) -> np.ndarray:
         if self.repetitions == 1:
-            return encoded_bits
+            return encoded_bits.copy()
 
         code = encoded_bits.reshape((self.repetitions, self.bit_block_size))
         # Majority voting
diff --git a/hermespy/modem/waveform.py b/hermespy/modem/waveform.py
index 09e9639..7d1666a 100644
--- a/hermespy/modem/waveform.py
+++ b/hermespy/modem/waveform.py
@@ -167,7 +167,7 @@ class ChannelEstimation(Generic[CWT], Serializable):
                 (symbols.num_streams, 1, symbols.num_blocks, symbols.num_symbols), dtype=complex
             )
         )
-        return StatedSymbols(symbols.raw, state)
+        return StatedSymbols(symbols.raw.copy(), state)
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
@@ -220,7 +220,7 @@ class ChannelEqualization(Generic[CWT], ABC, Serializable):
         """
 
         # The default routine performs no equalization
-        return stated_symbols
+        return stated_symbols.copy()
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
diff --git a/hermespy/modem/waveform_chirp_fsk.py b/hermespy/modem/waveform_chirp_fsk.py
index e219df5..846ab13 100644
--- a/hermespy/modem/waveform_chirp_fsk.py
+++ b/hermespy/modem/waveform_chirp_fsk.py
@@ -275,11 +275,11 @@ class ChirpFSKWaveform(PilotCommunicationWaveform):
 
     @override
     def place(self, symbols: Symbols) -> Symbols:
-        return symbols
+        return symbols.copy()
 
     @override
     def pick(self, placed_symbols: StatedSymbols) -> StatedSymbols:
-        return placed_symbols
+        return placed_symbols.copy()
 
     @override
     def modulate(
diff --git a/hermespy/modem/waveform_single_carrier.py b/hermespy/modem/waveform_single_carrier.py
index 0df531e..3644944 100644
--- a/hermespy/modem/waveform_single_carrier.py
+++ b/hermespy/modem/waveform_single_carrier.py
@@ -560,7 +560,7 @@ class SingleCarrierLeastSquaresChannelEstimation(SingleCarrierChannelEstimation)
                 channel_estimation_indices, channel_estimation_stem_indices, stems
             )
 
-        return StatedSymbols(symbols.raw, channel_estimation[:, np.newaxis, :, np.newaxis])
+        return StatedSymbols(symbols.raw.copy(), channel_estimation[:, np.newaxis, :, np.newaxis])
 
 
 class SingleCarrierChannelEqualization(ChannelEqualization[FilteredSingleCarrierWaveform], ABC):
diff --git a/hermespy/modem/waveforms/orthogonal/channel.py b/hermespy/modem/waveforms/orthogonal/channel.py
index 7ab23e3..2c9f866 100644
--- a/hermespy/modem/waveforms/orthogonal/channel.py
+++ b/hermespy/modem/waveforms/orthogonal/channel.py
@@ -63,7 +63,7 @@ class OrthogonalLeastSquaresChannelEstimation(ChannelEstimation[OrthogonalWavefo
             stem_indices, channel_estimation[stem_indices], nan_indices, method="nearest"
         )
 
-        return StatedSymbols(symbols.raw, channel_estimation)
+        return StatedSymbols(symbols.raw.copy(), channel_estimation)
 
 
 class OrthogonalChannelEqualization(ChannelEqualization[OrthogonalWaveform], ABC):
diff --git a/hermespy/radar/radar.py b/hermespy/radar/radar.py
index e6a50d6..df60352 100644
--- a/hermespy/radar/radar.py
+++ b/hermespy/radar/radar.py
@@ -479,7 +479,7 @@ class RadarBase(Generic[RTT, RRT], Transmitter[RTT], Receiver[RRT]):
         angles_of_interest = (
             np.array([[0.0, 0.0]], dtype=float)
             if self.receive_beamformer is None or signal.num_streams == 1
-            else self.receive_beamformer.probe_focus_points[:, 0, :]
+            else self.receive_beamformer.probe_focus_points[:, 0, :].copy()
         )
 
         return angles_of_interest, beamformed_samples
diff --git a/hermespy/simulation/modem/channel_estimation.py b/hermespy/simulation/modem/channel_estimation.py
index a87986d..b5d80c8 100644
--- a/hermespy/simulation/modem/channel_estimation.py
+++ b/hermespy/simulation/modem/channel_estimation.py
@@ -176,7 +176,7 @@ class SingleCarrierIdealChannelEstimation(
 
         # Convert to sparse representation
         sparse_csi = COO.from_numpy(symbol_csi)
-        return StatedSymbols(symbols.raw, sparse_csi)
+        return StatedSymbols(symbols.raw.copy(), sparse_csi)
 
 
 class OFDMIdealChannelEstimation(IdealChannelEstimation[OFDMWaveform], Serializable):
@@ -292,4 +292,4 @@ class OFDMIdealChannelEstimation(IdealChannelEstimation[OFDMWaveform], Serializa
         # Correct the FFT normalization
         # symbol_csi *= np.sqrt(self.waveform.num_subcarriers)
 
-        return StatedSymbols(symbols.raw, symbol_csi)
+        return StatedSymbols(symbols.raw.copy(), symbol_csi)
diff --git a/hermespy/simulation/rf/noise/model.py b/hermespy/simulation/rf/noise/model.py
index f3b9a90..1040b2d 100644
--- a/hermespy/simulation/rf/noise/model.py
+++ b/hermespy/simulation/rf/noise/model.py
@@ -143,7 +143,7 @@ class AWGNRealization(NoiseRealization):
     def add_to(self, signal: ST) -> ST:
         # Abort if the power is zero
         if self.power == 0.0:
-            return signal
+            return signal.copy()
 
         # Create random number generator
         rng = self.generator()
-- 
2.43.0


From ab17a49cfa5352b169a4b853d6fb8e186d522b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 106/138] fix: serialized temporary objects and arrays are not
 mistaken for later ones

---
 hermespy/core/factory.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index d1eb6e7..35910f1 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -848,8 +848,8 @@ class HDFSerializationProcess(SerializationProcess):
         tag_registry: Mapping[str, Type[Serializable]],
         base_group: Group,
         group: Group,
-        arrays: MutableMapping[int, np.ndarray],
-        objects: MutableMapping[int, str],
+        arrays: MutableMapping[int, tuple[str, np.ndarray]],
+        objects: MutableMapping[int, tuple[str, Serializable]],
     ) -> None:
         # Init base class
         SerializationProcess.__init__(self, tag_registry)
@@ -893,13 +893,13 @@ class HDFSerializationProcess(SerializationProcess):
 
         # If the array has already been serialized, just create a soft link to it
         if cache and uid in self.__arrays:
-            self.__group[name] = SoftLink(self.__arrays[uid])
+            self.__group[name] = SoftLink(self.__arrays[uid][0])
             return
 
         # Write the array to the group and record its exact location to the object cache
         new = self.__group.create_dataset(name, array.shape, array.dtype, array)
         if cache:
-            self.__arrays[uid] = new.name
+            self.__arrays[uid] = (new.name, array)
 
     @override
     def serialize_floating(self, value: float, name: str) -> None:
@@ -934,16 +934,16 @@ class HDFSerializationProcess(SerializationProcess):
         obj_key: int = id(obj)
 
         # If the object has already been serialized, just create a soft link to it
-        obj_path = self.__objects.get(obj_key, None)
-        if obj_path is not None:
-            self.__group[name] = SoftLink(obj_path)
+        cached_object = self.__objects.get(obj_key, None)
+        if cached_object is not None:
+            self.__group[name] = SoftLink(cached_object[0])
             return
 
         # Create a new group for the object
         new_group = self._create_group(self.__group, name)
 
         # Save the object's path for future reference
-        self.__objects[obj_key] = new_group.name
+        self.__objects[obj_key] = (new_group.name, obj)
 
         # Create a new serialization process
         process = HDFSerializationProcess(
-- 
2.43.0


From 10ec14f59c27edf54a6f716d9d0ce9f3c2278a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 107/138] fix: shared objects and arrays are restored shared

---
 hermespy/core/factory.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index 35910f1..a5b92a9 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -1087,6 +1087,11 @@ class HDFDeserializationProcess(DeserializationProcess):
         else:
             array_dataset = self.__group[name]
 
+        # The array may already have been deserialized by following a link
+        cached_array = self.__arrays.get(array_dataset.name, None)
+        if cached_array is not None and cached_array.dtype == dtype:
+            return cached_array
+
         deserialized_array = np.asarray(array_dataset, dtype=dtype)
         self.__arrays[array_dataset.name] = deserialized_array
         return deserialized_array
@@ -1156,6 +1161,10 @@ class HDFDeserializationProcess(DeserializationProcess):
             object_group = self.__group[name]
 
         # Get the object's type
+        # The object may already have been deserialized by following a link
+        if object_group.name in self.__objects:
+            return self.__objects[object_group.name]
+
         object_type: str | None = object_group.attrs.get("type", default=None)
         if object_type is None:
             raise RuntimeError(
-- 
2.43.0


From 676b508cce8da8fe56209fe3464755c13ef50824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 108/138] fix: rf chains and blocks are restored with their
 configuration

---
 hermespy/simulation/__init__.py           |  4 +++
 hermespy/simulation/rf/__init__.py        |  4 +++
 hermespy/simulation/rf/block.py           | 34 +++++++++++++++++++++--
 hermespy/simulation/rf/blocks/__init__.py |  4 +++
 hermespy/simulation/rf/blocks/ad.py       |  9 ++++++
 hermespy/simulation/rf/blocks/amps.py     | 14 ++++++++--
 hermespy/simulation/rf/blocks/filters.py  | 16 +++++++++++
 hermespy/simulation/rf/blocks/ramp.py     |  5 ++--
 hermespy/simulation/rf/blocks/shift.py    | 18 ++++++++++++
 hermespy/simulation/rf/blocks/source.py   | 18 ++++++++++++
 hermespy/simulation/rf/blocks/split.py    | 13 +++++++++
 hermespy/simulation/rf/blocks/sum.py      | 13 +++++++++
 hermespy/simulation/rf/blocks/x4.py       |  6 ++++
 hermespy/simulation/rf/chain.py           | 25 +++++++++++++++++
 14 files changed, 176 insertions(+), 7 deletions(-)

diff --git a/hermespy/simulation/__init__.py b/hermespy/simulation/__init__.py
index 789f86d..9022aa8 100644
--- a/hermespy/simulation/__init__.py
+++ b/hermespy/simulation/__init__.py
@@ -25,6 +25,8 @@ from .rf import (
     RappPowerAmplifier,
     ClippingPowerAmplifier,
     CustomPowerAmplifier,
+    MemoryCTPolynomialPowerAmplifier,
+    MemoryPolynomialPowerAmplifier,
     HPF,
     MixerType,
     IdealMixer,
@@ -123,6 +125,8 @@ __all__ = [
     "RappPowerAmplifier",
     "ClippingPowerAmplifier",
     "CustomPowerAmplifier",
+    "MemoryCTPolynomialPowerAmplifier",
+    "MemoryPolynomialPowerAmplifier",
     "HPF",
     "MixerType",
     "IdealMixer",
diff --git a/hermespy/simulation/rf/__init__.py b/hermespy/simulation/rf/__init__.py
index 2e34c25..bc3dd35 100644
--- a/hermespy/simulation/rf/__init__.py
+++ b/hermespy/simulation/rf/__init__.py
@@ -12,6 +12,8 @@ from .blocks import (
     RappPowerAmplifier,
     ClippingPowerAmplifier,
     CustomPowerAmplifier,
+    MemoryCTPolynomialPowerAmplifier,
+    MemoryPolynomialPowerAmplifier,
     HPF,
     MixerType,
     IdealMixer,
@@ -63,6 +65,8 @@ __all__ = [
     "RappPowerAmplifier",
     "ClippingPowerAmplifier",
     "CustomPowerAmplifier",
+    "MemoryCTPolynomialPowerAmplifier",
+    "MemoryPolynomialPowerAmplifier",
     "HPF",
     "MixerType",
     "IdealMixer",
diff --git a/hermespy/simulation/rf/block.py b/hermespy/simulation/rf/block.py
index 49aa4a4..a88db20 100644
--- a/hermespy/simulation/rf/block.py
+++ b/hermespy/simulation/rf/block.py
@@ -3,12 +3,19 @@
 from __future__ import annotations
 from abc import ABC, abstractmethod
 from functools import cache
-from typing import Generic, Iterable, SupportsInt, SupportsIndex, TypeVar
+from typing import Any, Generic, Iterable, SupportsInt, SupportsIndex, TypeVar
+from typing_extensions import override
 
 import numpy as np
 from scipy.signal import cheby2, cheb2ord, sosfiltfilt
 
-from hermespy.core import RandomNode, Serializable, SerializableEnum
+from hermespy.core import (
+    DeserializationProcess,
+    RandomNode,
+    Serializable,
+    SerializableEnum,
+    SerializationProcess,
+)
 from .signal import RFSignal
 from .noise import AWGN, NoiseLevel, NoiseModel, NoiseRealization, N0
 
@@ -118,6 +125,29 @@ class RFBlock(ABC, Generic[RFBRT], RandomNode, Serializable):
 
         return self.__noise_level
 
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_object(self.noise_model, "noise_model")
+        process.serialize_object(self.noise_level, "noise_level")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    def _DeserializeParameters(cls, process: DeserializationProcess) -> dict[str, Any]:
+        """Deserialize the parameters shared by all radio-frequency blocks.
+
+        Args:
+            process: The current stage of the deserialization process.
+
+        Returns: Keyword arguments of the block's initialization routine.
+        """
+
+        return {
+            "noise_model": process.deserialize_object("noise_model", NoiseModel, None),
+            "noise_level": process.deserialize_object("noise_level", NoiseLevel, None),
+            "seed": process.deserialize_integer("seed", None),
+        }
+
     @property
     @abstractmethod
     def num_input_ports(self) -> int:
diff --git a/hermespy/simulation/rf/blocks/__init__.py b/hermespy/simulation/rf/blocks/__init__.py
index 347f9d8..f24d50d 100644
--- a/hermespy/simulation/rf/blocks/__init__.py
+++ b/hermespy/simulation/rf/blocks/__init__.py
@@ -7,6 +7,8 @@ from .amps import (
     RappPowerAmplifier,
     ClippingPowerAmplifier,
     CustomPowerAmplifier,
+    MemoryCTPolynomialPowerAmplifier,
+    MemoryPolynomialPowerAmplifier,
 )
 from .filters import HPF
 from .mixers import MixerType, IdealMixer, Mixer
@@ -39,6 +41,8 @@ __all__ = [
     "RappPowerAmplifier",
     "ClippingPowerAmplifier",
     "CustomPowerAmplifier",
+    "MemoryCTPolynomialPowerAmplifier",
+    "MemoryPolynomialPowerAmplifier",
     "HPF",
     "MixerType",
     "IdealMixer",
diff --git a/hermespy/simulation/rf/blocks/ad.py b/hermespy/simulation/rf/blocks/ad.py
index 18e2c90..eabec30 100644
--- a/hermespy/simulation/rf/blocks/ad.py
+++ b/hermespy/simulation/rf/blocks/ad.py
@@ -613,6 +613,11 @@ class ADC(ConverterBase, DSPOutputBlock):
             process.serialize_integer(self.num_quantization_bits, "num_quantization_bits")
         process.serialize_object(self.gain, "gain")
         process.serialize_object(self.quantizer_type, "quantizer_type")
+        process.serialize_integer(self.num_output_ports, "num_ports")
+        process.serialize_object(self.noise_model, "noise_model")
+        process.serialize_object(self.noise_level, "noise_level")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
 
     @override
     @classmethod
@@ -621,6 +626,10 @@ class ADC(ConverterBase, DSPOutputBlock):
             process.deserialize_integer("num_quantization_bits", None),
             process.deserialize_object("gain", GainControlBase, None),
             process.deserialize_object("quantizer_type", QuantizerType, QuantizerType.MID_RISER),
+            process.deserialize_integer("num_ports", 1),
+            process.deserialize_object("noise_model", NoiseModel, None),
+            process.deserialize_object("noise_level", NoiseLevel, None),
+            process.deserialize_integer("seed", None),
         )
 
 
diff --git a/hermespy/simulation/rf/blocks/amps.py b/hermespy/simulation/rf/blocks/amps.py
index df98f07..8836111 100644
--- a/hermespy/simulation/rf/blocks/amps.py
+++ b/hermespy/simulation/rf/blocks/amps.py
@@ -754,12 +754,17 @@ class MemoryPolynomialPowerAmplifier(PowerAmplifier):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        PowerAmplifier.serialize(self, process)
         process.serialize_array(self.coeff_matrix, "coeff_matrix")
 
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> MemoryPolynomialPowerAmplifier:
-        return cls(process.deserialize_array("coeff_matrix", np.complex128))  # type: ignore
+        return cls(
+            process.deserialize_array("coeff_matrix", np.complex128),
+            gain=process.deserialize_floating("gain", cls._DEFAULT_GAIN),
+            **cls._DeserializeParameters(process),
+        )  # type: ignore
 
 
 class MemoryCTPolynomialPowerAmplifier(PowerAmplifier):
@@ -868,9 +873,14 @@ class MemoryCTPolynomialPowerAmplifier(PowerAmplifier):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        PowerAmplifier.serialize(self, process)
         process.serialize_array(self.coeff_matrix, "coeff_matrix")
 
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> MemoryCTPolynomialPowerAmplifier:
-        return cls(process.deserialize_array("coeff_matrix", np.complex128))  # type: ignore
+        return cls(
+            process.deserialize_array("coeff_matrix", np.complex128),
+            gain=process.deserialize_floating("gain", cls._DEFAULT_GAIN),
+            **cls._DeserializeParameters(process),
+        )  # type: ignore
diff --git a/hermespy/simulation/rf/blocks/filters.py b/hermespy/simulation/rf/blocks/filters.py
index 6541911..d734676 100644
--- a/hermespy/simulation/rf/blocks/filters.py
+++ b/hermespy/simulation/rf/blocks/filters.py
@@ -7,6 +7,7 @@ from typing_extensions import override
 import numpy as np
 from scipy.signal import butter, filtfilt
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 from ..noise import NoiseModel, NoiseLevel, NoiseRealization
@@ -232,3 +233,18 @@ class HPF(Filter):
             oversampling_factor,
             self.noise_model.realize(self.noise_level.get_power(bandwidth)),
         )
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        Filter.serialize(self, process)
+        process.serialize_floating(self.cutoff_frequency, "cutoff_frequency")
+        process.serialize_integer(self.filter_order, "filter_order")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> HPF:
+        return cls(
+            process.deserialize_floating("cutoff_frequency"),
+            process.deserialize_integer("filter_order"),
+            **cls._DeserializeParameters(process),
+        )
diff --git a/hermespy/simulation/rf/blocks/ramp.py b/hermespy/simulation/rf/blocks/ramp.py
index f6c45ce..e83f824 100644
--- a/hermespy/simulation/rf/blocks/ramp.py
+++ b/hermespy/simulation/rf/blocks/ramp.py
@@ -212,12 +212,11 @@ class RampGenerator(RFBlock):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        RFBlock.serialize(self, process)
         process.serialize_floating(self.chirp_bandwidth, "chirp_bandwidth")
         process.serialize_floating(self.chirp_slope, "chirp_slope")
         process.serialize_floating(self.chirp_interval, "chirp_interval")
         process.serialize_integer(self.num_chirps, "num_chirps")
-        if self.seed is not None:
-            process.serialize_integer(self.seed, "seed")
 
     @classmethod
     @override
@@ -227,5 +226,5 @@ class RampGenerator(RFBlock):
             chirp_bandwidth=process.deserialize_floating("chirp_bandwidth"),
             chirp_slope=process.deserialize_floating("chirp_slope"),
             chirp_interval=process.deserialize_floating("chirp_interval"),
-            seed=process.deserialize_integer("seed", None),
+            **cls._DeserializeParameters(process),
         )
diff --git a/hermespy/simulation/rf/blocks/shift.py b/hermespy/simulation/rf/blocks/shift.py
index 958f976..d2c6a95 100644
--- a/hermespy/simulation/rf/blocks/shift.py
+++ b/hermespy/simulation/rf/blocks/shift.py
@@ -5,6 +5,7 @@ from typing_extensions import override
 
 import numpy as np
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 from ..noise import NoiseModel, NoiseLevel
@@ -124,3 +125,20 @@ class Shift(RFBlock):
         """
 
         return self.__o
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        RFBlock.serialize(self, process)
+        process.serialize_floating(self.phase, "phase")
+        process.serialize_integer(self.num_quantization_bits, "num_quantization_bits")
+        process.serialize_integer(self.__num_ports, "num_ports")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> Shift:
+        return cls(
+            process.deserialize_floating("phase", cls.__DEFAULT_PHASE),
+            process.deserialize_integer("num_quantization_bits", cls.__NO_QUANTIZATION),
+            process.deserialize_integer("num_ports", 1),
+            **cls._DeserializeParameters(process),
+        )
diff --git a/hermespy/simulation/rf/blocks/source.py b/hermespy/simulation/rf/blocks/source.py
index 8da0522..cd2129d 100644
--- a/hermespy/simulation/rf/blocks/source.py
+++ b/hermespy/simulation/rf/blocks/source.py
@@ -5,6 +5,7 @@ from typing_extensions import override
 
 import numpy as np
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..noise import (
     NoiseRealization,
     NoiseLevel,
@@ -212,3 +213,20 @@ class Source(RFBlock):
         # Add phase noise to the output signal
         noisy_output = realization.phase_noise.add_noise(output)
         return noisy_output
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        RFBlock.serialize(self, process)
+        process.serialize_floating(self.carrier_frequency, "carrier_frequency")
+        process.serialize_floating(self.amplitude, "amplitude")
+        process.serialize_object(self.phase_noise, "phase_noise")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> Source:
+        return cls(
+            process.deserialize_floating("carrier_frequency", 0.0),
+            process.deserialize_object("phase_noise", PhaseNoise, None),
+            process.deserialize_floating("amplitude", 1.0),
+            **cls._DeserializeParameters(process),
+        )
diff --git a/hermespy/simulation/rf/blocks/split.py b/hermespy/simulation/rf/blocks/split.py
index 92c8e14..551785c 100644
--- a/hermespy/simulation/rf/blocks/split.py
+++ b/hermespy/simulation/rf/blocks/split.py
@@ -5,6 +5,7 @@ from typing_extensions import override
 
 import numpy as np
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 
@@ -73,3 +74,15 @@ class Split(RFBlock):
         """
 
         return self.__o
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        RFBlock.serialize(self, process)
+        process.serialize_integer(self.__num_outputs, "num_outputs")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> Split:
+        return cls(
+            process.deserialize_integer("num_outputs"), process.deserialize_integer("seed", None)
+        )
diff --git a/hermespy/simulation/rf/blocks/sum.py b/hermespy/simulation/rf/blocks/sum.py
index 48821d1..eae9caf 100644
--- a/hermespy/simulation/rf/blocks/sum.py
+++ b/hermespy/simulation/rf/blocks/sum.py
@@ -5,6 +5,7 @@ from typing_extensions import override
 
 import numpy as np
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 
@@ -78,3 +79,15 @@ class Sum(RFBlock):
         """Output port of the summation block."""
 
         return self.__o
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        RFBlock.serialize(self, process)
+        process.serialize_integer(self.__num_input_ports, "num_input_ports")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> Sum:
+        return cls(
+            process.deserialize_integer("num_input_ports"), process.deserialize_integer("seed", None)
+        )
diff --git a/hermespy/simulation/rf/blocks/x4.py b/hermespy/simulation/rf/blocks/x4.py
index 3d994eb..07420e8 100644
--- a/hermespy/simulation/rf/blocks/x4.py
+++ b/hermespy/simulation/rf/blocks/x4.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 from typing_extensions import override
 
+from hermespy.core import DeserializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 
@@ -71,3 +72,8 @@ class X4(RFBlock):
         output: RFSignal = input.copy()
         output.carrier_frequencies = input.carrier_frequencies * 4
         return output
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> X4:
+        return cls(process.deserialize_integer("seed", None))
diff --git a/hermespy/simulation/rf/chain.py b/hermespy/simulation/rf/chain.py
index bb13d9e..e4a33ac 100644
--- a/hermespy/simulation/rf/chain.py
+++ b/hermespy/simulation/rf/chain.py
@@ -6,6 +6,8 @@ from collections.abc import MutableMapping
 from typing import Generic, Iterable, SupportsIndex, SupportsInt
 from typing_extensions import override
 
+import numpy as np
+
 from hermespy.core import (
     DenseSignal,
     RandomNode,
@@ -689,6 +691,16 @@ class RFChain(RandomNode, Serializable):
         process.serialize_object_sequence(self.__rf_output_blocks, "rf_output_blocks")
         process.serialize_object_sequence(self.__rf_origin_blocks, "rf_origin_blocks")
 
+        # Serialize the connections between the block references
+        connections = [
+            (self.__block_references.index(output), output_port, i, input_port)
+            for i, reference in enumerate(self.__block_references)
+            for output, ports in reference.incoming_connections.items()
+            for output_port, input_port in zip(*ports)
+        ]
+        if len(connections) > 0:
+            process.serialize_array(np.asarray(connections, np.int64), "connections")
+
         # Serialize random seed if available
         if self.seed is not None:
             process.serialize_integer(self.seed, "seed")
@@ -718,4 +730,17 @@ class RFChain(RandomNode, Serializable):
             process.deserialize_object_sequence("rf_origin_blocks", RFBlockReference)
         )
 
+        # Blocks draw from the chain's random state
+        for reference in chain_instance.__block_references:
+            reference.block.random_mother = chain_instance
+
+        # Deserialize the connections between the block references
+        connections = process.deserialize_array("connections", np.int64, None)
+        if connections is not None:
+            for output, output_port, input, input_port in connections.tolist():
+                output_block = chain_instance.__block_references[output]
+                input_block = chain_instance.__block_references[input]
+                output_block.connect_to(input_block, output_port, input_port)
+                input_block.connect_from(output_block, output_port, input_port)
+
         return chain_instance
-- 
2.43.0


From 92e11b0aa59e73280b4b179d6022a180f132103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 109/138] fix: antenna arrays are restored with their
 configuration

---
 hermespy/core/antennas.py       |  6 +++---
 hermespy/simulation/antennas.py | 13 +++++++++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/hermespy/core/antennas.py b/hermespy/core/antennas.py
index 8058388..cad1885 100644
--- a/hermespy/core/antennas.py
+++ b/hermespy/core/antennas.py
@@ -1416,7 +1416,7 @@ class UniformArray(Generic[AT], AntennaArray[AT], Serializable):
 
     def serialize(self, process: SerializationProcess) -> None:
         AntennaArray.serialize(self, process)
-        process.serialize_array(np.asarray(self.__dimensions, np.float64), "dimensions")
+        process.serialize_array(np.asarray(self.__dimensions, np.int64), "dimensions")
         process.serialize_floating(self.__spacing, "spacing")
         process.serialize_object(self.__element, "element")
 
@@ -1424,7 +1424,7 @@ class UniformArray(Generic[AT], AntennaArray[AT], Serializable):
     def Deserialize(cls, process: DeserializationProcess) -> UniformArray:
         pose = process.deserialize_array("pose", np.float64).view(Transformation)
         spacing = process.deserialize_floating("spacing")
-        dimensions = process.deserialize_array("dimensions", np.float64).flatten().tolist()
+        dimensions = process.deserialize_array("dimensions", np.int64).flatten().tolist()
         element = process.deserialize_object("element", Antenna)
         return cls(element, spacing, dimensions, pose)  # type: ignore[arg-type]
 
@@ -1484,7 +1484,7 @@ class CustomAntennaArray(Generic[AT], AntennaArray[AT], Serializable):
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> CustomAntennaArray:
-        return CustomAntennaArray(
+        return cls(
             process.deserialize_object_sequence("antennas", Antenna),
             process.deserialize_array("pose", np.float64).view(Transformation),
         )
diff --git a/hermespy/simulation/antennas.py b/hermespy/simulation/antennas.py
index 3840e69..de766da 100644
--- a/hermespy/simulation/antennas.py
+++ b/hermespy/simulation/antennas.py
@@ -19,12 +19,14 @@ from hermespy.core import (
     AntennaArray,
     AntennaMode,
     CustomAntennaArray,
+    DeserializationProcess,
     Dipole,
     Executable,
     IdealAntenna,
     LinearAntenna,
     PatchAntenna,
     ReceiveState,
+    SerializationProcess,
     Signal,
     SignalBlock,
     Transformation,
@@ -83,6 +85,17 @@ class SimulatedAntenna(Antenna):
     def weight(self, value: complex) -> None:
         self.__weight = value
 
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        super().serialize(process)
+        process.serialize_complex(self.weight, "weight")
+
+    @classmethod
+    def Deserialize(cls, process: DeserializationProcess) -> SimulatedAntenna:
+        antenna = super().Deserialize(process)  # type: ignore
+        antenna.weight = process.deserialize_complex("weight", 1.0 + 0j)
+        return antenna
+
     def transmit(self, signal: Signal) -> Signal:
         """Transmit a signal over this antenna.
 
-- 
2.43.0


From d1b6461a60369cd217457f5b76763710a8928cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 110/138] fix: waveforms are restored with their configuration

---
 hermespy/modem/tools/psk_qam_mapping.py       |  4 +++
 hermespy/modem/waveform.py                    | 20 +++++++++++++
 hermespy/modem/waveform_chirp_fsk.py          |  3 +-
 hermespy/modem/waveform_single_carrier.py     |  4 ++-
 hermespy/modem/waveforms/ieee_5gnr.py         | 30 +++++++++++++++++--
 hermespy/modem/waveforms/orthogonal/ofdm.py   | 10 ++++++-
 .../modem/waveforms/orthogonal/waveform.py    | 15 ++++++----
 7 files changed, 74 insertions(+), 12 deletions(-)

diff --git a/hermespy/modem/tools/psk_qam_mapping.py b/hermespy/modem/tools/psk_qam_mapping.py
index 4449e28..2ffe123 100644
--- a/hermespy/modem/tools/psk_qam_mapping.py
+++ b/hermespy/modem/tools/psk_qam_mapping.py
@@ -528,6 +528,8 @@ class PskQamMapping(Serializable):
         process.serialize_integer(self.modulation_order, "modulation_order")
         if self.mapping is not None:
             process.serialize_array(self.mapping, "mapping")
+        process.serialize_integer(self.soft_output, "soft_output")
+        process.serialize_integer(self.is_complex, "is_complex")
 
     @classmethod
     @override
@@ -535,4 +537,6 @@ class PskQamMapping(Serializable):
         return cls(
             process.deserialize_integer("modulation_order"),
             process.deserialize_array("mapping", np.complex128, None),
+            bool(process.deserialize_integer("soft_output", 0)),
+            bool(process.deserialize_integer("is_complex", 1)),
         )
diff --git a/hermespy/modem/waveform.py b/hermespy/modem/waveform.py
index 7d1666a..3ad1d26 100644
--- a/hermespy/modem/waveform.py
+++ b/hermespy/modem/waveform.py
@@ -818,3 +818,23 @@ class ConfigurablePilotWaveform(PilotCommunicationWaveform):
             symbol_sequence = np.tile(symbol_sequence, num_repetitions)
 
         return symbol_sequence[:num_symbols]
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        PilotCommunicationWaveform.serialize(self, process)
+        process.serialize_object(self.pilot_symbol_sequence, "pilot_symbol_sequence")
+        process.serialize_integer(
+            self.repeat_pilot_symbol_sequence, "repeat_pilot_symbol_sequence"
+        )
+
+    @classmethod
+    @override
+    def _DeserializeParameters(cls, process: DeserializationProcess) -> dict[str, object]:
+        parameters = super()._DeserializeParameters(process)
+        parameters["symbol_sequence"] = process.deserialize_object(
+            "pilot_symbol_sequence", PilotSymbolSequence, None
+        )
+        parameters["repeat_symbol_sequence"] = bool(
+            process.deserialize_integer("repeat_pilot_symbol_sequence", 1)
+        )
+        return parameters
diff --git a/hermespy/modem/waveform_chirp_fsk.py b/hermespy/modem/waveform_chirp_fsk.py
index 846ab13..c27aacb 100644
--- a/hermespy/modem/waveform_chirp_fsk.py
+++ b/hermespy/modem/waveform_chirp_fsk.py
@@ -82,10 +82,11 @@ class ChirpFSKWaveform(PilotCommunicationWaveform):
         """
 
         # Init base class
+        if kwargs.get("synchronization") is None:
+            kwargs["synchronization"] = ChirpFSKSynchronization()
         PilotCommunicationWaveform.__init__(self, **kwargs)
 
         # Configure waveform paramters
-        self.synchronization = ChirpFSKSynchronization()
         self.chirp_duration = chirp_duration
         self.freq_difference = freq_difference
         self.num_pilot_chirps = num_pilot_chirps
diff --git a/hermespy/modem/waveform_single_carrier.py b/hermespy/modem/waveform_single_carrier.py
index 3644944..d8ed91b 100644
--- a/hermespy/modem/waveform_single_carrier.py
+++ b/hermespy/modem/waveform_single_carrier.py
@@ -458,7 +458,9 @@ class FilteredSingleCarrierWaveform(ConfigurablePilotWaveform):
     @override
     @classmethod
     def _DeserializeParameters(cls, process: DeserializationProcess) -> dict[str, Any]:
-        parameters = ConfigurablePilotWaveform._DeserializeParameters(process)
+        parameters = super()._DeserializeParameters(process)
+        parameters["pilot_symbol_sequence"] = parameters.pop("symbol_sequence")
+        parameters["repeat_pilot_symbol_sequence"] = parameters.pop("repeat_symbol_sequence")
         parameters["num_preamble_symbols"] = process.deserialize_integer(
             "num_preamble_symbols", cls.__DEFAULT_NUM_PREAMBLE_SYMBOLS
         )
diff --git a/hermespy/modem/waveforms/ieee_5gnr.py b/hermespy/modem/waveforms/ieee_5gnr.py
index 2ba516b..d06196b 100644
--- a/hermespy/modem/waveforms/ieee_5gnr.py
+++ b/hermespy/modem/waveforms/ieee_5gnr.py
@@ -242,16 +242,38 @@ class NRSlot(OFDMWaveform):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        OFDMWaveform.serialize(self, process)
         process.serialize_integer(self.num_resource_blocks, "num_resource_blocks")
 
+    def _deserialize_configuration(self, process: DeserializationProcess) -> None:
+        """Recall the waveform's mutable configuration from a deserialization process.
+
+        Args:
+            process: The deserialization process.
+        """
+
+        params = self._DeserializeParameters(process)
+        self.modulation_order = params["modulation_order"]
+        self.synchronization = params["synchronization"]
+        self.channel_estimation = params["channel_estimation"]
+        self.channel_equalization = params["channel_equalization"]
+        self.grid_structure = params["grid_structure"]
+        self.pilot_section = params["pilot_section"]
+        if params["pilot_sequence"] is not None:
+            self.pilot_symbol_sequence = params["pilot_sequence"]
+        self.repeat_pilot_symbol_sequence = params["repeat_pilot_sequence"]
+        self.dc_suppression = params["dc_suppression"]
+
     @override
     @classmethod
     def Deserialize(cls: Type[NRSlot], process: DeserializationProcess) -> NRSlot:
-        return cls(
+        slot = cls(
             num_resource_blocks=process.deserialize_integer(
                 "num_resource_blocks", IEEE_5GNR_MIN_NUM_RBS
             )
         )
+        slot._deserialize_configuration(process)
+        return slot
 
 
 class NRSubframe(NRSlot):
@@ -325,18 +347,20 @@ class NRSubframe(NRSlot):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        NRSlot.serialize(self, process)
         process.serialize_integer(self.numerology, "numerology")
-        process.serialize_integer(self.num_resource_blocks, "num_resource_blocks")
 
     @override
     @classmethod
     def Deserialize(cls: Type[NRSubframe], process: DeserializationProcess) -> NRSubframe:
-        return cls(
+        subframe = cls(
             numerology=process.deserialize_integer("numerology", 0),
             num_resource_blocks=process.deserialize_integer(
                 "num_resource_blocks", IEEE_5GNR_MIN_NUM_RBS
             ),
         )
+        subframe._deserialize_configuration(process)
+        return subframe
 
 
 class NRFrame(NRSubframe):
diff --git a/hermespy/modem/waveforms/orthogonal/ofdm.py b/hermespy/modem/waveforms/orthogonal/ofdm.py
index 2ef6a4d..9bc4ede 100644
--- a/hermespy/modem/waveforms/orthogonal/ofdm.py
+++ b/hermespy/modem/waveforms/orthogonal/ofdm.py
@@ -9,7 +9,7 @@ import numpy as np
 from scipy.fft import fft, fftfreq, fftshift, ifft, ifftshift
 from scipy.signal import find_peaks
 
-from hermespy.core import Serializable, SerializationProcess
+from hermespy.core import Serializable, DeserializationProcess, SerializationProcess
 from ...waveform import Synchronization
 from ...waveform_correlation_synchronization import CorrelationSynchronization
 from .waveform import (
@@ -179,6 +179,14 @@ class OFDMWaveform(OrthogonalWaveform, Serializable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         OrthogonalWaveform.serialize(self, process)
+        process.serialize_integer(self.dc_suppression, "dc_suppression")
+
+    @classmethod
+    @override
+    def _DeserializeParameters(cls, process: DeserializationProcess) -> dict[str, Any]:
+        params = super()._DeserializeParameters(process)
+        params["dc_suppression"] = bool(process.deserialize_integer("dc_suppression", 1))
+        return params
 
 
 class SchmidlCoxPilotSection(PilotSection[OFDMWaveform]):
diff --git a/hermespy/modem/waveforms/orthogonal/waveform.py b/hermespy/modem/waveforms/orthogonal/waveform.py
index befa75e..6c93b80 100644
--- a/hermespy/modem/waveforms/orthogonal/waveform.py
+++ b/hermespy/modem/waveforms/orthogonal/waveform.py
@@ -707,15 +707,16 @@ class GuardSection(GridSection["OrthogonalWaveform"], Serializable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_floating(self.duration, "duration")
-        process.serialize_integer(self.num_repetitions, "num_repetitions")
+        GridSection.serialize(self, process)
 
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> GuardSection:
-        return cls(
-            process.deserialize_floating("duration"),
-            process.deserialize_integer("num_repetitions", cls._DEFAULT_NUM_REPETITIONS),
-        )
+        parameters = cls._DeserializeArguments(process)
+        sample_offset = parameters.pop("sample_offset")
+        section = cls(process.deserialize_floating("duration"), **parameters)
+        section.sample_offset = sample_offset
+        return section
 
 
 class PilotSection(Generic[OWT], GridSection[OWT], Serializable):
@@ -1388,7 +1389,9 @@ class OrthogonalWaveform(ConfigurablePilotWaveform, ABC):
     @classmethod
     @override
     def _DeserializeParameters(cls, process: DeserializationProcess) -> dict[str, Any]:
-        params = ConfigurablePilotWaveform._DeserializeParameters(process)
+        params = super()._DeserializeParameters(process)
+        params["pilot_sequence"] = params.pop("symbol_sequence")
+        params["repeat_pilot_sequence"] = params.pop("repeat_symbol_sequence")
         params.update(
             {
                 "num_subcarriers": process.deserialize_integer("num_subcarriers"),
-- 
2.43.0


From 036815613e53ef3fff2a0c7507b1dbec04412b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 111/138] fix: encoders are restored with their configuration

---
 hermespy/fec/block_interleaver.py       |  3 ++-
 hermespy/fec/coding.py                  | 28 ++++++++++++++++++++++++-
 hermespy/fec/cyclic_redundancy_check.py |  3 ++-
 hermespy/fec/repetition_encoder.py      |  3 ++-
 hermespy/fec/scrambler.py               | 11 ++++++----
 5 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/hermespy/fec/block_interleaver.py b/hermespy/fec/block_interleaver.py
index c3e7626..bccb06a 100644
--- a/hermespy/fec/block_interleaver.py
+++ b/hermespy/fec/block_interleaver.py
@@ -151,6 +151,7 @@ class BlockInterleaver(Encoder, Serializable):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        Encoder.serialize(self, process)
         process.serialize_integer(self.block_size, "block_size")
         process.serialize_integer(self.interleave_blocks, "interleave_blocks")
 
@@ -160,4 +161,4 @@ class BlockInterleaver(Encoder, Serializable):
         block_size = process.deserialize_integer("block_size")
         interleave_blocks = process.deserialize_integer("interleave_blocks")
 
-        return cls(block_size, interleave_blocks)
+        return cls(block_size, interleave_blocks)._deserialize_state(process)
diff --git a/hermespy/fec/coding.py b/hermespy/fec/coding.py
index 1b0530e..6df3d65 100644
--- a/hermespy/fec/coding.py
+++ b/hermespy/fec/coding.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 from abc import ABC, abstractmethod
 from math import ceil
+from typing import TypeVar
 from typing_extensions import override
 
 import numpy as np
@@ -19,6 +20,10 @@ __email__ = "jan.adler@barkhauseninstitut.org"
 __status__ = "Prototype"
 
 
+ET = TypeVar("ET", bound="Encoder")
+"""Type of a coding step."""
+
+
 class Encoder(ABC, Serializable):
     """Base class of a single coding step within a channel coding pipeline.
 
@@ -79,6 +84,22 @@ class Encoder(ABC, Serializable):
     def enabled(self, value: bool) -> None:
         self.__enabled = value
 
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_integer(self.enabled, "enabled")
+
+    def _deserialize_state(self: ET, process: DeserializationProcess) -> ET:
+        """Recall the state common to all coding steps.
+
+        Args:
+            process: The deserialization process.
+
+        Returns: The coding step itself.
+        """
+
+        self.enabled = bool(process.deserialize_integer("enabled", 1))
+        return self
+
     @abstractmethod
     def encode(self, bits: np.ndarray) -> np.ndarray:
         """Encodes a single block of bits.
@@ -492,11 +513,16 @@ class EncoderManager(RandomNode, Serializable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_object_sequence(self._encoders, "encoders")
+        process.serialize_integer(self.allow_padding, "allow_padding")
+        process.serialize_integer(self.allow_truncating, "allow_truncating")
 
     @override
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> EncoderManager:
-        manager = cls()
+        manager = cls(
+            bool(process.deserialize_integer("allow_padding", 1)),
+            bool(process.deserialize_integer("allow_truncating", 1)),
+        )
         encoders = process.deserialize_object_sequence("encoders", Encoder)
         for encoder in encoders:
             manager.add_encoder(encoder)
diff --git a/hermespy/fec/cyclic_redundancy_check.py b/hermespy/fec/cyclic_redundancy_check.py
index 170911c..14a6c4d 100644
--- a/hermespy/fec/cyclic_redundancy_check.py
+++ b/hermespy/fec/cyclic_redundancy_check.py
@@ -104,6 +104,7 @@ class CyclicRedundancyCheck(Encoder, RandomNode, Serializable):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        Encoder.serialize(self, process)
         process.serialize_integer(self.bit_block_size, "bit_block_size")
         process.serialize_integer(self.check_block_size, "check_block_size")
 
@@ -113,4 +114,4 @@ class CyclicRedundancyCheck(Encoder, RandomNode, Serializable):
         return cls(
             bit_block_size=process.deserialize_integer("bit_block_size"),
             check_block_size=process.deserialize_integer("check_block_size"),
-        )
+        )._deserialize_state(process)
diff --git a/hermespy/fec/repetition_encoder.py b/hermespy/fec/repetition_encoder.py
index eefa634..0fc4fcf 100644
--- a/hermespy/fec/repetition_encoder.py
+++ b/hermespy/fec/repetition_encoder.py
@@ -140,6 +140,7 @@ class RepetitionEncoder(Encoder, Serializable):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        Encoder.serialize(self, process)
         process.serialize_integer(self.bit_block_size, "bit_block_size")
         process.serialize_integer(self.repetitions, "repetitions")
 
@@ -149,4 +150,4 @@ class RepetitionEncoder(Encoder, Serializable):
         bit_block_size = process.deserialize_integer("bit_block_size")
         repetitions = process.deserialize_integer("repetitions")
 
-        return cls(bit_block_size, repetitions)
+        return cls(bit_block_size, repetitions)._deserialize_state(process)
diff --git a/hermespy/fec/scrambler.py b/hermespy/fec/scrambler.py
index bff28d1..1f2966a 100644
--- a/hermespy/fec/scrambler.py
+++ b/hermespy/fec/scrambler.py
@@ -150,6 +150,7 @@ class Scrambler3GPP(Encoder, Serializable):
 
         # Initialize the pseudo random number generator
         seed = self.__default_seed.copy() if seed is None else seed
+        self.__seed = seed
 
         self.__transmit_rng = PseudoRandomGenerator(seed)
         self.__receive_rng = PseudoRandomGenerator(seed)
@@ -176,12 +177,13 @@ class Scrambler3GPP(Encoder, Serializable):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        return
+        Encoder.serialize(self, process)
+        process.serialize_array(np.asarray(self.__seed, dtype=np.int64), "seed")
 
     @override
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> Scrambler3GPP:
-        return cls()
+        return cls(process.deserialize_array("seed", np.int64, None))._deserialize_state(process)
 
 
 class Scrambler80211a(Encoder, Serializable):
@@ -301,9 +303,10 @@ class Scrambler80211a(Encoder, Serializable):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        return
+        Encoder.serialize(self, process)
+        process.serialize_array(np.asarray(self.__seed, dtype=np.int64), "seed")
 
     @override
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> Scrambler80211a:
-        return cls()
+        return cls(process.deserialize_array("seed", np.int64, None))._deserialize_state(process)
-- 
2.43.0


From bb164bac270ced4e23a9ef4ce2b12ed8b20a7279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 112/138] fix: operators and modems are restored with their
 configuration

---
 hermespy/beamforming/operators.py | 30 ++++++++++++----------
 hermespy/core/device.py           | 16 ++++++------
 hermespy/core/operators.py        | 42 ++++++++++++++-----------------
 hermespy/core/precoding.py        |  5 +++-
 hermespy/modem/ieee_5gnr.py       | 36 ++++++++++++++------------
 hermespy/modem/modem.py           |  4 +--
 6 files changed, 71 insertions(+), 62 deletions(-)

diff --git a/hermespy/beamforming/operators.py b/hermespy/beamforming/operators.py
index 72259cb..1263f19 100644
--- a/hermespy/beamforming/operators.py
+++ b/hermespy/beamforming/operators.py
@@ -80,15 +80,20 @@ class BeamformingTransmitter(SignalTransmitter):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        SignalTransmitter.serialize(self, process)
         process.serialize_object(self.beamformer, "beamformer")
-        process.serialize_object(self.signal, "signal")
 
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> BeamformingTransmitter:
-        return BeamformingTransmitter(
-            process.deserialize_object("signal"), process.deserialize_object("beamformer")
+        transmitter = cls(
+            process.deserialize_object("signal", Signal),
+            process.deserialize_object("beamformer", TransmitBeamformer),
         )
+        parameters = cls._DeserializeParameters(process)
+        transmitter.selected_transmit_ports = parameters["selected_transmit_ports"]  # type: ignore[assignment]
+        transmitter.carrier_frequency = parameters["carrier_frequency"]  # type: ignore[assignment]
+        return transmitter
 
 
 class BeamformingReceiver(SignalReceiver, Serializable):
@@ -154,14 +159,13 @@ class BeamformingReceiver(SignalReceiver, Serializable):
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> BeamformingReceiver:
-        selected_receive_ports = process.deserialize_array("selected_receive_ports", np.int64, None)
-        return BeamformingReceiver(
-            process.deserialize_object("beamformer"),
-            process.deserialize_integer("num_samples"),
-            (
-                selected_receive_ports.flatten().tolist()
-                if selected_receive_ports is not None
-                else None
-            ),
-            process.deserialize_floating("expected_power"),
+        parameters = cls._DeserializeParameters(process)
+        carrier_frequency = parameters.pop("carrier_frequency")
+        receiver = cls(
+            process.deserialize_object("beamformer", ReceiveBeamformer),
+            num_samples=process.deserialize_integer("num_samples"),
+            expected_power=process.deserialize_floating("expected_power"),
+            **parameters,  # type: ignore[arg-type]
         )
+        receiver.carrier_frequency = carrier_frequency  # type: ignore[assignment]
+        return receiver
diff --git a/hermespy/core/device.py b/hermespy/core/device.py
index 054cf18..6f91ef0 100644
--- a/hermespy/core/device.py
+++ b/hermespy/core/device.py
@@ -750,16 +750,17 @@ class Receiver(Generic[ReceptionType], RandomNode, MixingOperator):
         MixingOperator.serialize(self, process)
         if self.selected_receive_ports is not None:
             process.serialize_array(
-                np.asarray(self.selected_receive_ports), "selected_receive_ports"
+                np.asarray(self.selected_receive_ports, np.int64), "selected_receive_ports"
             )
 
     @classmethod
     @override
     def _DeserializeParameters(cls, process: DeserializationProcess) -> dict[str, object]:
         params = MixingOperator._DeserializeParameters(process)
-        params["selected_receive_ports"] = process.deserialize_array(
-            "selected_receive_ports", np.int64, None
-        )  # type: ignore
+        selected_receive_ports = process.deserialize_array("selected_receive_ports", np.int64, None)
+        params["selected_receive_ports"] = (
+            selected_receive_ports.flatten().tolist() if selected_receive_ports is not None else None
+        )
         return params
 
 
@@ -1033,15 +1034,16 @@ class Transmitter(Generic[TransmissionType], RandomNode, MixingOperator):
         MixingOperator.serialize(self, process)
         if self.selected_transmit_ports is not None:
             process.serialize_array(
-                np.asarray(self.selected_transmit_ports), "selected_transmit_ports"
+                np.asarray(self.selected_transmit_ports, np.int64), "selected_transmit_ports"
             )
 
     @classmethod
     @override
     def _DeserializeParameters(cls, process: DeserializationProcess) -> dict[str, object]:
         params = MixingOperator._DeserializeParameters(process)
-        params["selected_transmit_ports"] = process.deserialize_array(
-            "selected_transmit_ports", np.int64, None
+        selected_transmit_ports = process.deserialize_array("selected_transmit_ports", np.int64, None)
+        params["selected_transmit_ports"] = (
+            selected_transmit_ports.flatten().tolist() if selected_transmit_ports is not None else None
         )
         return params
 
diff --git a/hermespy/core/operators.py b/hermespy/core/operators.py
index a078d76..315c4e0 100644
--- a/hermespy/core/operators.py
+++ b/hermespy/core/operators.py
@@ -88,22 +88,19 @@ class SilentTransmitter(StaticOperator, Transmitter[Transmission], Serializable)
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        Transmitter.serialize(self, process)
         process.serialize_integer(self.num_samples, "num_samples")
-        if self.selected_transmit_ports is not None:
-            process.serialize_array(
-                np.asarray(self.selected_transmit_ports, np.int64), "selected_transmit_ports"
-            )
 
     @classmethod
     @override
     def Deserialize(
         cls: Type[SilentTransmitter], process: DeserializationProcess
     ) -> SilentTransmitter:
-        transmit_ports = process.deserialize_array("selected_transmit_ports", np.int64, None)
-        return SilentTransmitter(
-            process.deserialize_integer("num_samples"),
-            transmit_ports.flatten().tolist() if transmit_ports is not None else None,
-        )
+        parameters = cls._DeserializeParameters(process)
+        carrier_frequency = parameters.pop("carrier_frequency")
+        transmitter = cls(process.deserialize_integer("num_samples"), **parameters)
+        transmitter.carrier_frequency = carrier_frequency
+        return transmitter
 
 
 class SignalTransmitter(StaticOperator, Transmitter[Transmission], Serializable):
@@ -155,6 +152,7 @@ class SignalTransmitter(StaticOperator, Transmitter[Transmission], Serializable)
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        Transmitter.serialize(self, process)
         process.serialize_object(self.__signal, "signal")
 
     @override
@@ -162,7 +160,9 @@ class SignalTransmitter(StaticOperator, Transmitter[Transmission], Serializable)
     def Deserialize(
         cls: Type[SignalTransmitter], process: DeserializationProcess
     ) -> SignalTransmitter:
-        return SignalTransmitter(process.deserialize_object("signal", Signal))
+        return SignalTransmitter(
+            process.deserialize_object("signal", Signal), **cls._DeserializeParameters(process)
+        )
 
 
 class SignalReceiver(StaticOperator, Receiver[Reception], Serializable):
@@ -220,23 +220,19 @@ class SignalReceiver(StaticOperator, Receiver[Reception], Serializable):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        Receiver.serialize(self, process)
         process.serialize_integer(self.num_samples, "num_samples")
-        if self.selected_receive_ports is not None:
-            process.serialize_array(
-                np.asarray(self.selected_receive_ports, np.float64), "selected_receive_ports"
-            )
         process.serialize_floating(self.__expected_power, "expected_power")
 
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> SignalReceiver:
-        selected_receive_ports = process.deserialize_array("selected_receive_ports", np.int64, None)
-        return cls(
-            process.deserialize_integer("num_samples"),
-            (
-                selected_receive_ports.flatten().tolist()
-                if selected_receive_ports is not None
-                else None
-            ),
-            process.deserialize_floating("expected_power"),
+        parameters = cls._DeserializeParameters(process)
+        carrier_frequency = parameters.pop("carrier_frequency")
+        receiver = cls(
+            num_samples=process.deserialize_integer("num_samples"),
+            expected_power=process.deserialize_floating("expected_power"),
+            **parameters,
         )
+        receiver.carrier_frequency = carrier_frequency
+        return receiver
diff --git a/hermespy/core/precoding.py b/hermespy/core/precoding.py
index f782074..1e8b402 100644
--- a/hermespy/core/precoding.py
+++ b/hermespy/core/precoding.py
@@ -191,7 +191,10 @@ class Precoding(Sequence[PrecoderType], Generic[PrecoderType], Serializable):
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> Precoding[PrecoderType]:
         precoding = cls()
-        precoding.__precoders = process.deserialize_object_sequence("precoders", Precoder)  # type: ignore
+        for index, precoder in enumerate(
+            process.deserialize_object_sequence("precoders", Precoder)
+        ):
+            precoding[index] = precoder  # type: ignore
         return precoding
 
 
diff --git a/hermespy/modem/ieee_5gnr.py b/hermespy/modem/ieee_5gnr.py
index ce081ee..2679e2b 100644
--- a/hermespy/modem/ieee_5gnr.py
+++ b/hermespy/modem/ieee_5gnr.py
@@ -110,21 +110,25 @@ class NRSlotLink(SimplexLink):
     @override
     @classmethod
     def Deserialize(cls: Type[NRSlotLink], process: DeserializationProcess) -> NRSlotLink:
-        slot = process.deserialize_object("waveform", NRSlot)
-        selected_transmit_ports = process.deserialize_array(
-            "selected_transmit_ports", np.int64, None
-        )
-        selected_receive_ports = process.deserialize_array("selected_receive_ports", np.int64, None)
-        return NRSlotLink(
+        parameters = cls._DeserializeParameters(process)
+        slot: NRSlot = parameters["waveform"]  # type: ignore[assignment]
+        link = cls(
             num_resource_blocks=slot.num_resource_blocks,
-            selected_transmit_ports=(
-                selected_transmit_ports.tolist() if selected_transmit_ports else None
-            ),
-            selected_receive_ports=(
-                selected_receive_ports.tolist() if selected_receive_ports else None
-            ),
-            carrier_frequency=process.deserialize_floating("carrier_frequency", None),
-            bits_source=process.deserialize_object("bits_source", BitsSource),
-            frame_generator=process.deserialize_object("frame_generator", FrameGenerator),
-            seed=process.deserialize_integer("seed", None),
+            selected_transmit_ports=parameters["selected_transmit_ports"],  # type: ignore[arg-type]
+            selected_receive_ports=parameters["selected_receive_ports"],  # type: ignore[arg-type]
+            carrier_frequency=parameters["carrier_frequency"],  # type: ignore[arg-type]
+            bits_source=parameters["bits_source"],  # type: ignore[arg-type]
+            frame_generator=parameters["frame_generator"],  # type: ignore[arg-type]
         )
+        link.waveform = slot
+        if parameters["encoding"] is not None:
+            link.encoder_manager = parameters["encoding"]  # type: ignore[assignment]
+        for coding in (
+            "transmit_symbol_coding",
+            "transmit_signal_coding",
+            "receive_symbol_coding",
+            "receive_signal_coding",
+        ):
+            for index, precoder in enumerate(parameters[coding]):  # type: ignore[arg-type]
+                getattr(link, coding)[index] = precoder
+        return link
diff --git a/hermespy/modem/modem.py b/hermespy/modem/modem.py
index 37a7b93..3694bc7 100644
--- a/hermespy/modem/modem.py
+++ b/hermespy/modem/modem.py
@@ -613,7 +613,7 @@ class BaseModem(Generic[CWT], RandomNode, Serializable):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        process.serialize_object_sequence(self.encoder_manager.encoders, "bit_coding")
+        process.serialize_object(self.encoder_manager, "encoding")
         if self.waveform is not None:
             process.serialize_object(self.waveform, "waveform")
         process.serialize_object(self.frame_generator, "frame_generator")
@@ -621,7 +621,7 @@ class BaseModem(Generic[CWT], RandomNode, Serializable):
     @classmethod
     def _DeserializeParameters(cls, process: DeserializationProcess) -> dict[str, object]:
         return {
-            "encoding": process.deserialize_object_sequence("bit_coding", Encoder),
+            "encoding": process.deserialize_object("encoding", EncoderManager, None),
             "waveform": process.deserialize_object("waveform", CommunicationWaveform, None),
             "frame_generator": process.deserialize_object("frame_generator", FrameGenerator, None),
         }
-- 
2.43.0


From d8d9706a7a34fffac74698957c8332dec85b42c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 113/138] fix: beamformers are restored with their focus

---
 hermespy/beamforming/beamformer.py            | 35 +++++++++++++++++++
 hermespy/beamforming/capon.py                 |  5 ++-
 hermespy/beamforming/conventional.py          |  8 +++--
 .../beamforming/nullsteeringbeamformer.py     |  8 +++--
 4 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/hermespy/beamforming/beamformer.py b/hermespy/beamforming/beamformer.py
index d1f9f12..fc3fccb 100644
--- a/hermespy/beamforming/beamformer.py
+++ b/hermespy/beamforming/beamformer.py
@@ -388,6 +388,21 @@ class TransmitBeamformer(TransmitStreamEncoder):
         """
         ...  # pragma: no cover
 
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_object_sequence(self.__focus_points, "transmit_focus")
+
+    def _deserialize_transmit_configuration(self, process: DeserializationProcess) -> None:
+        """Recall the configured focus from a deserialization process.
+
+        Args:
+            process: The deserialization process.
+        """
+
+        focus_points = process.deserialize_object_sequence("transmit_focus", BeamFocus)
+        if len(focus_points) > 0:
+            self.transmit_focus = focus_points
+
 
 class ReceiveBeamformer(ReceiveStreamDecoder):
     """Base class for beam steering precodings during signal receptions.
@@ -630,3 +645,23 @@ class ReceiveBeamformer(ReceiveStreamDecoder):
 
         # Decode the signal focusing towards the provided points
         return self._decode(signal, device.carrier_frequency, _focus_points, device.antennas)
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_object_sequence(self.__focus_points, "receive_focus")
+        process.serialize_array(self.probe_focus_points, "probe_focus_points")
+
+    def _deserialize_receive_configuration(self, process: DeserializationProcess) -> None:
+        """Recall the configured focus from a deserialization process.
+
+        Args:
+            process: The deserialization process.
+        """
+
+        focus_points = process.deserialize_object_sequence("receive_focus", BeamFocus)
+        if len(focus_points) > 0:
+            self.receive_focus = focus_points
+
+        probe_focus_points = process.deserialize_array("probe_focus_points", np.float64, None)
+        if probe_focus_points is not None:
+            self.probe_focus_points = probe_focus_points
diff --git a/hermespy/beamforming/capon.py b/hermespy/beamforming/capon.py
index 780b975..7117cd1 100644
--- a/hermespy/beamforming/capon.py
+++ b/hermespy/beamforming/capon.py
@@ -100,9 +100,12 @@ class CaponBeamformer(ReceiveBeamformer):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        ReceiveBeamformer.serialize(self, process)
         process.serialize_floating(self.loading, "loading")
 
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> CaponBeamformer:
-        return CaponBeamformer(process.deserialize_floating("loading"))
+        beamformer = cls(process.deserialize_floating("loading"))
+        beamformer._deserialize_receive_configuration(process)
+        return beamformer
diff --git a/hermespy/beamforming/conventional.py b/hermespy/beamforming/conventional.py
index 7fcfd27..058ba70 100644
--- a/hermespy/beamforming/conventional.py
+++ b/hermespy/beamforming/conventional.py
@@ -124,9 +124,13 @@ class ConventionalBeamformer(TransmitBeamformer, ReceiveBeamformer):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        pass
+        TransmitBeamformer.serialize(self, process)
+        ReceiveBeamformer.serialize(self, process)
 
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> ConventionalBeamformer:
-        return ConventionalBeamformer()
+        beamformer = cls()
+        beamformer._deserialize_transmit_configuration(process)
+        beamformer._deserialize_receive_configuration(process)
+        return beamformer
diff --git a/hermespy/beamforming/nullsteeringbeamformer.py b/hermespy/beamforming/nullsteeringbeamformer.py
index 16da3de..96f17dc 100644
--- a/hermespy/beamforming/nullsteeringbeamformer.py
+++ b/hermespy/beamforming/nullsteeringbeamformer.py
@@ -111,9 +111,13 @@ class NullSteeringBeamformer(TransmitBeamformer, ReceiveBeamformer):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        return
+        TransmitBeamformer.serialize(self, process)
+        ReceiveBeamformer.serialize(self, process)
 
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> NullSteeringBeamformer:
-        return cls()
+        beamformer = cls()
+        beamformer._deserialize_transmit_configuration(process)
+        beamformer._deserialize_receive_configuration(process)
+        return beamformer
-- 
2.43.0


From 63a233f9e909e39b4a60302b78cdba8ddcf83fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:10 +0000
Subject: [PATCH 114/138] fix: registering an operator does not change its
 configured random mother

---
 hermespy/core/device.py      | 3 ++-
 hermespy/core/random_node.py | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/device.py b/hermespy/core/device.py
index 6f91ef0..c69f1fd 100644
--- a/hermespy/core/device.py
+++ b/hermespy/core/device.py
@@ -820,7 +820,8 @@ class DSPSlot(Generic[DSPType], Sequence[DSPType]):
         self.__dsp_algorithms.append(operator)
 
         # Registered operators draw from the device's random stream
-        operator.random_mother = self.__device
+        if isinstance(operator, RandomNode):
+            operator._random_default = self.__device
 
     def remove(self, operator: DSPType) -> None:
         """Remove an operator from this slot.
diff --git a/hermespy/core/random_node.py b/hermespy/core/random_node.py
index dfef8a8..b2de34f 100644
--- a/hermespy/core/random_node.py
+++ b/hermespy/core/random_node.py
@@ -70,6 +70,7 @@ class RandomNode(object):
     __mother_node: RandomNode | None  # Mother node of this node
     __generator: Generator | None  # Numpy generator object
     __seed: int | None
+    _random_default: RandomNode | None = None  # Stream drawn from until a seed or mother is set
 
     def __init__(self, mother_node: RandomNode | None = None, seed: int | None = None) -> None:
         """
@@ -102,6 +103,9 @@ class RandomNode(object):
         """
 
         if self.is_random_root:
+            if self._random_default is not None:
+                return self._random_default._rng
+
             return self.__generator
 
         return self.random_mother._rng
@@ -109,6 +113,7 @@ class RandomNode(object):
     @_rng.setter
     def _rng(self, value: Generator) -> None:
         self.__generator = value
+        self._random_default = None
 
     @property
     def is_random_root(self) -> bool:
@@ -134,6 +139,7 @@ class RandomNode(object):
     def seed(self, value: int) -> None:
         self.__seed = value
         self.__generator = default_rng(value)
+        self._random_default = None
 
     @property
     def random_mother(self) -> RandomNode | None:
-- 
2.43.0


From a4389676b2e29f6ecafc16ed2f6c19782a5524d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:10 +0000
Subject: [PATCH 115/138] fix: stub stages hand on their symbols, frames hold
 their own copy

---
 hermespy/modem/modem.py              | 2 +-
 hermespy/modem/waveform.py           | 2 +-
 hermespy/modem/waveform_chirp_fsk.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hermespy/modem/modem.py b/hermespy/modem/modem.py
index 3694bc7..ea1dd83 100644
--- a/hermespy/modem/modem.py
+++ b/hermespy/modem/modem.py
@@ -1248,7 +1248,7 @@ class ReceivingModemBase(Generic[CWT], BaseModem[CWT]):
                     signal=frame_signal,
                     decoded_signal=frame_signal,
                     symbols=symbols,
-                    decoded_symbols=decoded_symbols,
+                    decoded_symbols=decoded_symbols.copy(),
                     timestamp=frame_index / signal.sampling_rate,
                     equalized_symbols=equalized_symbols,
                     encoded_bits=encoded_bits,
diff --git a/hermespy/modem/waveform.py b/hermespy/modem/waveform.py
index 3ad1d26..a8c98e9 100644
--- a/hermespy/modem/waveform.py
+++ b/hermespy/modem/waveform.py
@@ -220,7 +220,7 @@ class ChannelEqualization(Generic[CWT], ABC, Serializable):
         """
 
         # The default routine performs no equalization
-        return stated_symbols.copy()
+        return stated_symbols
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
diff --git a/hermespy/modem/waveform_chirp_fsk.py b/hermespy/modem/waveform_chirp_fsk.py
index c27aacb..72f950b 100644
--- a/hermespy/modem/waveform_chirp_fsk.py
+++ b/hermespy/modem/waveform_chirp_fsk.py
@@ -280,7 +280,7 @@ class ChirpFSKWaveform(PilotCommunicationWaveform):
 
     @override
     def pick(self, placed_symbols: StatedSymbols) -> StatedSymbols:
-        return placed_symbols.copy()
+        return placed_symbols
 
     @override
     def modulate(
-- 
2.43.0


From ecaf1ebe5c92f8bd06623314f57dc93dda081476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:23 +0000
Subject: [PATCH 116/138] fix: operators with a seed of their own keep drawing
 from it

---
 hermespy/core/device.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/device.py b/hermespy/core/device.py
index c69f1fd..af079b9 100644
--- a/hermespy/core/device.py
+++ b/hermespy/core/device.py
@@ -819,8 +819,8 @@ class DSPSlot(Generic[DSPType], Sequence[DSPType]):
 
         self.__dsp_algorithms.append(operator)
 
-        # Registered operators draw from the device's random stream
-        if isinstance(operator, RandomNode):
+        # Registered operators without a seed of their own draw from the device's random stream
+        if isinstance(operator, RandomNode) and operator.seed is None:
             operator._random_default = self.__device
 
     def remove(self, operator: DSPType) -> None:
-- 
2.43.0


From 63ad45238fab7087619cdfba9821b2a308bbb652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:40 +0000
Subject: [PATCH 117/138] fix: fading channels and realizations keep their line
 of sight and correlation when saved

---
 hermespy/channel/fading/correlation.py | 28 +++++++++++++++++++++++++-
 hermespy/channel/fading/cost259.py     | 13 +++++++-----
 hermespy/channel/fading/exponential.py |  4 ++--
 hermespy/channel/fading/fading.py      | 21 +++++++++++++++----
 hermespy/channel/fading/tdl.py         | 11 ++++++----
 5 files changed, 61 insertions(+), 16 deletions(-)

diff --git a/hermespy/channel/fading/correlation.py b/hermespy/channel/fading/correlation.py
index e9b27cd..04af08a 100644
--- a/hermespy/channel/fading/correlation.py
+++ b/hermespy/channel/fading/correlation.py
@@ -2,9 +2,17 @@
 
 from __future__ import annotations
 
+from typing_extensions import override
+
 import numpy as np
 
-from hermespy.core import AntennaArrayState, AntennaMode, SerializableEnum
+from hermespy.core import (
+    AntennaArrayState,
+    AntennaMode,
+    DeserializationProcess,
+    SerializableEnum,
+    SerializationProcess,
+)
 from .fading import AntennaCorrelation
 
 __author__ = "Tobias Kronauer"
@@ -42,6 +50,15 @@ class CorrelationType(SerializableEnum):
     HIGH = 0.9, 0.9
     """High antenna correlation"""
 
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_string(self.name, "name")
+
+    @override
+    @classmethod
+    def Deserialize(cls, process: DeserializationProcess) -> CorrelationType:
+        return cls[process.deserialize_string("name")]
+
 
 class StandardAntennaCorrelation(AntennaCorrelation):
     """3GPP 5G Multipath fading standardized antenna correlations"""
@@ -104,3 +121,12 @@ class StandardAntennaCorrelation(AntennaCorrelation):
         raise RuntimeError(
             f"3GPP standard antenna covariance is only defined for 1, 2 and 4 antennas, device has {n} antennas"
         )
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_object(self.correlation, "correlation")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> StandardAntennaCorrelation:
+        return cls(process.deserialize_object("correlation", CorrelationType))
diff --git a/hermespy/channel/fading/cost259.py b/hermespy/channel/fading/cost259.py
index d3d6819..7c6be5e 100644
--- a/hermespy/channel/fading/cost259.py
+++ b/hermespy/channel/fading/cost259.py
@@ -199,7 +199,7 @@ class Cost259(MultipathFadingChannel):
                 ]
             )
             rice_factors = np.hstack([np.array([np.inf]), np.zeros(delays.size - 1)])
-            los_angle = np.arccos(0.7)
+            los_angle = float(np.arccos(0.7))
 
         else:
             raise ValueError("Requested model type not supported")
@@ -243,7 +243,7 @@ class Cost259(MultipathFadingChannel):
         if self.los_angle is not None:
             process.serialize_floating(self.los_angle, "los_angle")
         process.serialize_floating(self.doppler_frequency, "doppler_frequency")
-        process.serialize_floating(self.los_doppler_frequency, "los_doppler_frequency")
+        self._serialize_los_doppler(process)
         if self.antenna_correlation is not None:
             process.serialize_object(self.antenna_correlation, "antenna_correlation")
         Channel.serialize(self, process)
@@ -251,19 +251,22 @@ class Cost259(MultipathFadingChannel):
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> Cost259:
-        return cls(
+        channel = cls(
             model_type=process.deserialize_object("model_type", Cost259Type, cls.__DEFAULT_TYPE),
             correlation_distance=process.deserialize_floating(
                 "correlation_distance", cls._DEFAULT_DECORRELATION_DISTANCE
             ),
             num_sinusoids=process.deserialize_integer("num_sinusoids", cls._DEFAULT_NUM_SINUSOIDS),
-            los_angle=process.deserialize_floating("los_angle", None),
             doppler_frequency=process.deserialize_floating(
                 "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
             ),
-            los_doppler_frequency=process.deserialize_floating("los_doppler_frequency"),
             antenna_correlation=process.deserialize_object(
                 "antenna_correlation", AntennaCorrelation, None
             ),
             **Channel._DeserializeParameters(process),  # type: ignore[arg-type]
         )
+
+        # Some model types fix or reject the line of sight parameters during initialization
+        channel.los_angle = process.deserialize_floating("los_angle", None)
+        channel.los_doppler_frequency = process.deserialize_floating("los_doppler_frequency", None)
+        return channel
diff --git a/hermespy/channel/fading/exponential.py b/hermespy/channel/fading/exponential.py
index e3857bf..4826e83 100644
--- a/hermespy/channel/fading/exponential.py
+++ b/hermespy/channel/fading/exponential.py
@@ -143,7 +143,7 @@ class Exponential(MultipathFadingChannel):
         if self.los_angle is not None:
             process.serialize_floating(self.los_angle, "los_angle")
         process.serialize_floating(self.doppler_frequency, "doppler_frequency")
-        process.serialize_floating(self.los_doppler_frequency, "los_doppler_frequency")
+        self._serialize_los_doppler(process)
         if self.antenna_correlation is not None:
             process.serialize_object(self.antenna_correlation, "antenna_correlation")
         Channel.serialize(self, process)
@@ -162,7 +162,7 @@ class Exponential(MultipathFadingChannel):
             doppler_frequency=process.deserialize_floating(
                 "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
             ),
-            los_doppler_frequency=process.deserialize_floating("los_doppler_frequency"),
+            los_doppler_frequency=process.deserialize_floating("los_doppler_frequency", None),
             antenna_correlation=process.deserialize_object(
                 "antenna_correlation", AntennaCorrelation, None
             ),
diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index d66e8eb..03839a1 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -134,7 +134,9 @@ class CustomAntennaCorrelation(AntennaCorrelation):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        process.serialize_array(self.__covariance_matrix, "covariance_matrix")
+        process.serialize_array(
+            np.asarray(self.__covariance_matrix, dtype=np.complex128), "covariance_matrix"
+        )
 
     @classmethod
     @override
@@ -590,7 +592,7 @@ class MultipathFadingRealization(ChannelRealization[MultipathFadingSample]):
             process.deserialize_floating("nlos_doppler"),
             process.deserialize_object("antenna_correlation", AntennaCorrelation, None),
             set(),
-            **Channel._DeserializeParameters(process),  # type: ignore[arg-type]
+            **ChannelRealization._DeserializeParameters(process),  # type: ignore[arg-type]
         )
 
 
@@ -935,6 +937,12 @@ class MultipathFadingChannel(
 
         self.__antenna_correlation = value
 
+    def _serialize_los_doppler(self, process: SerializationProcess) -> None:
+        """Serialize the line of sight Doppler frequency, if it was configured explicitly."""
+
+        if self.__los_doppler_frequency is not None:
+            process.serialize_floating(self.__los_doppler_frequency, "los_doppler_frequency")
+
     @override
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_array(self.__delays, "delays")
@@ -943,7 +951,9 @@ class MultipathFadingChannel(
         process.serialize_integer(self.num_sinusoids, "num_sinusoids")
         process.serialize_floating(self.__correlation_distance, "correlation_distance")
         process.serialize_floating(self.__doppler_frequency, "doppler_frequency")
-        process.serialize_floating(self.__los_doppler_frequency, "los_doppler_frequency")
+        if self.los_angle is not None:
+            process.serialize_floating(self.los_angle, "los_angle")
+        self._serialize_los_doppler(process)
         if self.antenna_correlation is not None:
             process.serialize_object(self.antenna_correlation, "antenna_correlation")
         Channel.serialize(self, process)
@@ -966,7 +976,10 @@ class MultipathFadingChannel(
                 "doppler_frequency": process.deserialize_floating(
                     "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
                 ),
-                "los_doppler_frequency": process.deserialize_floating("los_doppler_frequency"),
+                "los_angle": process.deserialize_floating("los_angle", None),
+                "los_doppler_frequency": process.deserialize_floating(
+                    "los_doppler_frequency", None
+                ),
                 "antenna_correlation": process.deserialize_object(
                     "antenna_correlation", AntennaCorrelation, None
                 ),
diff --git a/hermespy/channel/fading/tdl.py b/hermespy/channel/fading/tdl.py
index 7fe995d..767411d 100644
--- a/hermespy/channel/fading/tdl.py
+++ b/hermespy/channel/fading/tdl.py
@@ -417,7 +417,7 @@ class TDL(MultipathFadingChannel):
         if self.los_angle is not None:
             process.serialize_floating(self.los_angle, "los_angle")
         process.serialize_floating(self.doppler_frequency, "doppler_frequency")
-        process.serialize_floating(self.los_doppler_frequency, "los_doppler_frequency")
+        self._serialize_los_doppler(process)
         if self.antenna_correlation is not None:
             process.serialize_object(self.antenna_correlation, "antenna_correlation")
         Channel.serialize(self, process)
@@ -425,20 +425,23 @@ class TDL(MultipathFadingChannel):
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> TDL:
-        return cls(
+        channel = cls(
             model_type=process.deserialize_object("model_type", TDLType, cls._DEFAULT_TYPE),
             rms_delay=process.deserialize_floating("rms_delay", cls._DEFAULT_RMS_DELAY),
             correlation_distance=process.deserialize_floating(
                 "correlation_distance", cls._DEFAULT_DECORRELATION_DISTANCE
             ),
             num_sinusoids=process.deserialize_integer("num_sinusoids", cls._DEFAULT_NUM_SINUSOIDS),
-            los_angle=process.deserialize_floating("los_angle", None),
             doppler_frequency=process.deserialize_floating(
                 "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
             ),
-            los_doppler_frequency=process.deserialize_floating("los_doppler_frequency"),
             antenna_correlation=process.deserialize_object(
                 "antenna_correlation", AntennaCorrelation, None
             ),
             **Channel._DeserializeParameters(process),  # type: ignore[arg-type]
         )
+
+        # Some model types fix or reject the line of sight parameters during initialization
+        channel.los_angle = process.deserialize_floating("los_angle", None)
+        channel.los_doppler_frequency = process.deserialize_floating("los_doppler_frequency", None)
+        return channel
-- 
2.43.0


From 6e93f34ceb43638116d4ab977d720c78a775a5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:40 +0000
Subject: [PATCH 118/138] fix: single target radar realizations restore their
 target

---
 hermespy/channel/radar/single.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/hermespy/channel/radar/single.py b/hermespy/channel/radar/single.py
index 8432864..539b71e 100644
--- a/hermespy/channel/radar/single.py
+++ b/hermespy/channel/radar/single.py
@@ -141,16 +141,13 @@ class SingleTargetRadarChannelRealization(RadarChannelRealization):
         process.serialize_object(self.__target_zenith_variable, "target_zenith_variable")
         process.serialize_object(self.__target_velocity_variable, "target_velocity_variable")
         process.serialize_object(self.__target_phase_variable, "target_phase_variable")
-        process.serialize_range(self.__target_range, "target_range")
+        if self.__target_range is not None:
+            process.serialize_range(self.__target_range, "target_range")
         process.serialize_range(self.__target_azimuth, "target_azimuth")
         process.serialize_range(self.__target_zenith, "target_zenith")
         process.serialize_floating(self.__target_cross_section, "target_cross_section")
         process.serialize_array(
-            (
-                np.array([self.__target_velocity])
-                if isinstance(self.__target_velocity, float)
-                else np.asarray(self.__target_velocity)
-            ),
+            np.atleast_1d(np.asarray(self.__target_velocity, dtype=np.float64)),
             "target_velocity",
         )
         process.serialize_integer(self.__attenuate, "attenuate")
@@ -159,9 +156,11 @@ class SingleTargetRadarChannelRealization(RadarChannelRealization):
     @override
     def Deserialize(cls, process: DeserializationProcess) -> SingleTargetRadarChannelRealization:
         target_velocity = process.deserialize_array("target_velocity", np.float64).flatten()
-        _target_velocity: float | tuple[float, float]
+        _target_velocity: float | tuple[float, float] | np.ndarray
         if len(target_velocity) == 1:
             _target_velocity = float(target_velocity[0])
+        elif len(target_velocity) > 2:
+            _target_velocity = target_velocity
         else:
             _target_velocity = (float(target_velocity[0]), float(target_velocity[1]))
         return SingleTargetRadarChannelRealization(
@@ -171,7 +170,7 @@ class SingleTargetRadarChannelRealization(RadarChannelRealization):
             process.deserialize_object("target_zenith_variable", ConsistentUniform),
             process.deserialize_object("target_velocity_variable", ConsistentUniform),
             process.deserialize_object("target_phase_variable", ConsistentUniform),
-            process.deserialize_range("target_range"),
+            process.deserialize_range("target_range", None),
             process.deserialize_range("target_azimuth"),
             process.deserialize_range("target_zenith"),
             process.deserialize_floating("target_cross_section"),
@@ -458,11 +457,7 @@ class SingleTargetRadarChannel(RadarChannelBase[SingleTargetRadarChannelRealizat
         process.serialize_floating(self.radar_cross_section, "radar_cross_section")
         process.serialize_integer(self.target_exists, "target_exists")
         process.serialize_array(
-            (
-                np.array([self.target_velocity], dtype=np.float64)
-                if isinstance(self.target_velocity, float)
-                else np.asarray(self.target_velocity)
-            ),
+            np.atleast_1d(np.asarray(self.target_velocity, dtype=np.float64)),
             "target_velocity",
             False,
         )
-- 
2.43.0


From 3a171f5a4230052f3fe461bb2526ce79d77f1b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:40 +0000
Subject: [PATCH 119/138] fix: delay realizations can be restored from files

---
 hermespy/channel/__init__.py       |  9 ++++++++-
 hermespy/channel/delay/__init__.py | 11 ++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/hermespy/channel/__init__.py b/hermespy/channel/__init__.py
index 747b77c..ac614ff 100644
--- a/hermespy/channel/__init__.py
+++ b/hermespy/channel/__init__.py
@@ -30,7 +30,12 @@ from .cdl import (
     UrbanMicrocells,
     UrbanMicrocellsRealization,
 )
-from .delay import SpatialDelayChannel, RandomDelayChannel
+from .delay import (
+    SpatialDelayChannel,
+    SpatialDelayChannelRealization,
+    RandomDelayChannel,
+    RandomDelayChannelRealization,
+)
 from .fading import (
     DeviceType,
     CorrelationType,
@@ -77,7 +82,9 @@ __all__ = [
     "CRT",
     "LinkState",
     "SpatialDelayChannel",
+    "SpatialDelayChannelRealization",
     "RandomDelayChannel",
+    "RandomDelayChannelRealization",
     "DeviceType",
     "CorrelationType",
     "StandardAntennaCorrelation",
diff --git a/hermespy/channel/delay/__init__.py b/hermespy/channel/delay/__init__.py
index d49a64e..3677259 100644
--- a/hermespy/channel/delay/__init__.py
+++ b/hermespy/channel/delay/__init__.py
@@ -1,7 +1,7 @@
 # -*- coding: utf-8 -*-
 
-from .random import RandomDelayChannel
-from .spatial import SpatialDelayChannel
+from .random import RandomDelayChannel, RandomDelayChannelRealization
+from .spatial import SpatialDelayChannel, SpatialDelayChannelRealization
 
 __author__ = "Jan Adler"
 __copyright__ = "Copyright 2026, Barkhausen Institut gGmbH"
@@ -13,4 +13,9 @@ __email__ = "jan.adler@barkhauseninstitut.org"
 __status__ = "Prototype"
 
 
-__all__ = ["RandomDelayChannel", "SpatialDelayChannel"]
+__all__ = [
+    "RandomDelayChannel",
+    "RandomDelayChannelRealization",
+    "SpatialDelayChannel",
+    "SpatialDelayChannelRealization",
+]
-- 
2.43.0


From c43807ee97cf4857ce433b84f536d54d1149892b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:40 +0000
Subject: [PATCH 120/138] fix: impedance couplings keep complex parameters when
 saved

---
 hermespy/simulation/coupling/impedance.py | 34 +++++++++++------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/hermespy/simulation/coupling/impedance.py b/hermespy/simulation/coupling/impedance.py
index fc4a7ad..004d459 100644
--- a/hermespy/simulation/coupling/impedance.py
+++ b/hermespy/simulation/coupling/impedance.py
@@ -26,6 +26,14 @@ __status__ = "Prototype"
 class ImpedanceCoupling(Coupling):
     """Imedance based mutual coupling model"""
 
+    __SERIALIZED_MATRICES = (
+        "transmit_correlation",
+        "receive_correlation",
+        "transmit_impedance",
+        "receive_impedance",
+        "matching_impedance",
+    )
+
     __transmit_correlation: np.ndarray | None
     __receive_correlation: np.ndarray | None
     __transmit_impedance: np.ndarray | None
@@ -220,26 +228,18 @@ class ImpedanceCoupling(Coupling):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        if self.transmit_correlation is not None:
-            process.serialize_array(self.transmit_correlation, "transmit_correlation")
-        if self.receive_correlation is not None:
-            process.serialize_array(self.receive_correlation, "receive_correlation")
-        if self.transmit_impedance is not None:
-            process.serialize_array(self.transmit_impedance, "transmit_impedance")
-        if self.receive_impedance is not None:
-            process.serialize_array(self.receive_impedance, "receive_impedance")
-        if self.matching_impedance is not None:
-            process.serialize_array(self.matching_impedance, "matching_impedance")
+        # Correlations and impedances are complex-valued in general
+        for name in self.__SERIALIZED_MATRICES:
+            matrix: np.ndarray | None = getattr(self, name)
+            if matrix is not None:
+                process.serialize_array(matrix.astype(np.complex128), name)
 
     @override
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> ImpedanceCoupling:
         return cls(
-            transmit_correlation=process.deserialize_array(
-                "transmit_correlation", np.float64, None
-            ),
-            receive_correlation=process.deserialize_array("receive_correlation", np.float64, None),
-            transmit_impedance=process.deserialize_array("transmit_impedance", np.float64, None),
-            receive_impedance=process.deserialize_array("receive_impedance", np.float64, None),
-            matching_impedance=process.deserialize_array("matching_impedance", np.float64, None),
+            **{
+                name: process.deserialize_array(name, np.complex128, None)
+                for name in cls.__SERIALIZED_MATRICES
+            }
         )
-- 
2.43.0


From 8700bb119382b84cf8e3764084a928a0809456e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:40 +0000
Subject: [PATCH 121/138] fix: leakage calibrations keep their ports when saved

---
 hermespy/hardware_loop/calibration/leakage.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hermespy/hardware_loop/calibration/leakage.py b/hermespy/hardware_loop/calibration/leakage.py
index f4bd241..31b6ddf 100644
--- a/hermespy/hardware_loop/calibration/leakage.py
+++ b/hermespy/hardware_loop/calibration/leakage.py
@@ -555,14 +555,22 @@ class SelectiveLeakageCalibration(LeakageCalibrationBase):
         process.serialize_array(self.leakage_response, "leakage_response")
         process.serialize_floating(self.sampling_rate, "sampling_rate")
         process.serialize_floating(self.delay, "delay")
+        if self.__transmit_ports is not None:
+            process.serialize_array(np.asarray(self.__transmit_ports, np.int64), "transmit_ports")
+        if self.__receive_ports is not None:
+            process.serialize_array(np.asarray(self.__receive_ports, np.int64), "receive_ports")
 
     @override
     @classmethod
     def Deserialize(
         cls: Type[SelectiveLeakageCalibration], process: DeserializationProcess
     ) -> SelectiveLeakageCalibration:
+        transmit_ports = process.deserialize_array("transmit_ports", np.int64, None)
+        receive_ports = process.deserialize_array("receive_ports", np.int64, None)
         return cls(
             process.deserialize_array("leakage_response", np.complex128),
             process.deserialize_floating("sampling_rate"),
             process.deserialize_floating("delay", cls.__DEFAULT_DELAY),
+            transmit_ports=transmit_ports.tolist() if transmit_ports is not None else None,
+            receive_ports=receive_ports.tolist() if receive_ports is not None else None,
         )
-- 
2.43.0


From 63f6061bf79718b0a22fba2e5a4214d25aeae9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:40 +0000
Subject: [PATCH 122/138] fix: drops keep their channel realizations when saved

---
 hermespy/simulation/drop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/simulation/drop.py b/hermespy/simulation/drop.py
index 84750e5..7caa23e 100644
--- a/hermespy/simulation/drop.py
+++ b/hermespy/simulation/drop.py
@@ -59,7 +59,7 @@ class SimulatedDrop(Drop[SimulatedDeviceTransmission, SimulatedDeviceReception])
     def Deserialize(cls: Type[SimulatedDrop], process: DeserializationProcess) -> SimulatedDrop:
         drop = Drop.Deserialize(process)
         channel_realizations = process.deserialize_object_sequence(
-            "channel_realiations", ChannelRealization
+            "channel_realizations", ChannelRealization
         )
         return SimulatedDrop(
             drop.timestamp, drop.device_transmissions, channel_realizations, drop.device_receptions
-- 
2.43.0


From 2dd3af7f2edf3488b5a80ee52d15828ff0801a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:40 +0000
Subject: [PATCH 123/138] fix: saved evaluators keep their settings

---
 hermespy/modem/evaluators.py | 44 +++++++++++++++++++++++++++++++++---
 hermespy/radar/evaluators.py |  6 +++++
 2 files changed, 47 insertions(+), 3 deletions(-)

diff --git a/hermespy/modem/evaluators.py b/hermespy/modem/evaluators.py
index 6461c2a..699e066 100644
--- a/hermespy/modem/evaluators.py
+++ b/hermespy/modem/evaluators.py
@@ -148,7 +148,12 @@ class CommunicationEvaluator(ScalarEvaluator, Serializable):
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_object(self.__transmitting_modem, "transmitting_modem")
         process.serialize_object(self.__receiving_modem, "receiving_modem")
-        process.serialize_integer(self.__plot_surface, "plot_surface")
+        process.serialize_floating(self.confidence, "confidence")
+        process.serialize_floating(self.tolerance, "tolerance")
+        process.serialize_integer(self.min_num_samples, "min_num_samples")
+        process.serialize_string(self.plot_scale, "plot_scale")
+        process.serialize_integer(self.tick_format.value, "tick_format")
+        process.serialize_integer(int(self.plot_surface), "plot_surface")
 
     @classmethod
     @override
@@ -156,7 +161,12 @@ class CommunicationEvaluator(ScalarEvaluator, Serializable):
         return cls(
             process.deserialize_object("transmitting_modem", TransmittingModem),
             process.deserialize_object("receiving_modem", ReceivingModem),
-            bool(process.deserialize_integer("plot_surface", cls._DEFAULT_PLOT_SURFACE)),
+            confidence=process.deserialize_floating("confidence", cls._DEFAULT_CONFIDENCE),
+            tolerance=process.deserialize_floating("tolerance", cls._DEFAULT_TOLERANCE),
+            min_num_samples=process.deserialize_integer("min_num_samples", cls._DEFAULT_MIN_NUM_SAMPLES),
+            plot_scale=process.deserialize_string("plot_scale", "log"),
+            tick_format=ValueType(process.deserialize_integer("tick_format", ValueType.LIN.value)),
+            plot_surface=bool(process.deserialize_integer("plot_surface", 1)),
         )
 
 
@@ -461,6 +471,11 @@ class ThroughputEvaluator(CommunicationEvaluator, Serializable):
         transmitting_modem: TransmittingModem,
         receiving_modem: ReceivingModem,
         plot_surface: bool = True,
+        confidence: float = CommunicationEvaluator._DEFAULT_CONFIDENCE,
+        tolerance: float = CommunicationEvaluator._DEFAULT_TOLERANCE,
+        min_num_samples: int = CommunicationEvaluator._DEFAULT_MIN_NUM_SAMPLES,
+        plot_scale: str = "log",
+        tick_format: ValueType = ValueType.LIN,
     ) -> None:
         """
         Args:
@@ -474,11 +489,34 @@ class ThroughputEvaluator(CommunicationEvaluator, Serializable):
             plot_surface:
                 Plot the surface of the evaluation result in two-dimensional grids.
                 Defaults to True.
+
+            confidence:
+                Required confidence level for the given `tolerance` between zero and one.
+
+            tolerance:
+                Acceptable non-negative bound around the mean value of the estimated throughput.
+
+            min_num_samples:
+                Minimum number of samples required to compute the confidence bound.
+
+            plot_scale:
+                Scale of the plot. Can be ``'linear'`` or ``'log'``.
+
+            tick_format:
+                Tick format of the plot.
         """
 
         # Initialize base class
         CommunicationEvaluator.__init__(
-            self, transmitting_modem, receiving_modem, plot_surface=plot_surface
+            self,
+            transmitting_modem,
+            receiving_modem,
+            confidence,
+            tolerance,
+            min_num_samples,
+            plot_scale,
+            tick_format,
+            plot_surface,
         )
 
         # Initialize class attributes
diff --git a/hermespy/radar/evaluators.py b/hermespy/radar/evaluators.py
index c981828..49ca775 100644
--- a/hermespy/radar/evaluators.py
+++ b/hermespy/radar/evaluators.py
@@ -414,6 +414,9 @@ class DetectionProbEvaluator(ScalarEvaluator, Serializable):
         process.serialize_floating(self.confidence, "confidence")
         process.serialize_floating(self.tolerance, "tolerance")
         process.serialize_integer(self.min_num_samples, "min_num_samples")
+        process.serialize_string(self.plot_scale, "plot_scale")
+        process.serialize_integer(self.tick_format.value, "tick_format")
+        process.serialize_integer(int(self.plot_surface), "plot_surface")
 
     @classmethod
     @override
@@ -427,6 +430,9 @@ class DetectionProbEvaluator(ScalarEvaluator, Serializable):
             min_num_samples=process.deserialize_integer(
                 "min_num_samples", cls._DEFAULT_MIN_NUM_SAMPLES
             ),
+            plot_scale=process.deserialize_string("plot_scale", "log"),
+            tick_format=ValueType(process.deserialize_integer("tick_format", ValueType.LIN.value)),
+            plot_surface=bool(process.deserialize_integer("plot_surface", 1)),
         )
 
 
-- 
2.43.0


From 7cf20da23f2adb183d081bbe01937ab36fd6c065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:41 +0000
Subject: [PATCH 124/138] fix: saved sensing operators keep their communication
 settings and waveform

---
 hermespy/jcas/jcas.py              | 57 ++++++++++++++++++++++++++++--
 hermespy/jcas/matched_filtering.py | 24 +++++++------
 hermespy/jcas/ofdm_radar.py        |  8 ++---
 3 files changed, 70 insertions(+), 19 deletions(-)

diff --git a/hermespy/jcas/jcas.py b/hermespy/jcas/jcas.py
index cae21ef..f8fb08e 100644
--- a/hermespy/jcas/jcas.py
+++ b/hermespy/jcas/jcas.py
@@ -7,15 +7,27 @@ from typing_extensions import override
 
 
 from hermespy.beamforming import ReceiveBeamformer
+from hermespy.fec import EncoderManager
 from hermespy.core import (
     ReceiveState,
     Signal,
     TransmitState,
     SerializationProcess,
     DeserializationProcess,
+    ReceiveStreamDecoder,
+    TransmitStreamEncoder,
 )
+from hermespy.modem.bits_source import BitsSource
 from hermespy.modem.modem import TransmittingModemBase, ReceivingModemBase
-from hermespy.modem import CommunicationTransmission, CommunicationReception, CWT
+from hermespy.modem import (
+    CommunicationReception,
+    CommunicationTransmission,
+    CommunicationWaveform,
+    CWT,
+    FrameGenerator,
+    ReceiveSymbolDecoder,
+    TransmitSymbolEncoder,
+)
 from hermespy.radar import RadarBase, RadarDetector, RadarTransmission, RadarReception
 
 __author__ = "Jan Adler"
@@ -169,8 +181,49 @@ class DuplexJCASOperator(
     @override
     def serialize(self, process: SerializationProcess) -> None:
         RadarBase.serialize(self, process)
+        TransmittingModemBase.serialize(self, process)
+        ReceivingModemBase.serialize(self, process)
+
+    @classmethod
+    @override
+    def _DeserializeParameters(cls, process: DeserializationProcess) -> dict[str, object]:
+        parameters = RadarBase._DeserializeParameters(process)
+        parameters["waveform"] = process.deserialize_object("waveform", CommunicationWaveform, None)
+        return parameters
+
+    def _deserialize_communication(self, process: DeserializationProcess) -> None:
+        """Restore the communication processing settings not exposed by the constructor.
+
+        Args:
+            process: The deserialization process.
+        """
+
+        encoding = process.deserialize_object("encoding", EncoderManager, None)
+        if encoding is not None:
+            self.encoder_manager = encoding
+
+        frame_generator = process.deserialize_object("frame_generator", FrameGenerator, None)
+        if frame_generator is not None:
+            self.frame_generator = frame_generator
+
+        bits_source = process.deserialize_object("bits_source", BitsSource, None)
+        if bits_source is not None:
+            self.bits_source = bits_source
+
+        for name, stage_type in (
+            ("transmit_symbol_coding", TransmitSymbolEncoder),
+            ("transmit_signal_coding", TransmitStreamEncoder),
+            ("receive_symbol_coding", ReceiveSymbolDecoder),
+            ("receive_signal_coding", ReceiveStreamDecoder),
+        ):
+            coding = getattr(self, name)
+            stages = process.deserialize_object_sequence(name, stage_type)  # type: ignore[type-abstract]
+            for s, stage in enumerate(stages):
+                coding[s] = stage
 
     @classmethod
     @override
     def Deserialize(cls: Type[_DJOT], process: DeserializationProcess) -> _DJOT:
-        return cls(**cls._DeserializeParameters(process))  # type: ignore[arg-type]
+        instance = cls(**cls._DeserializeParameters(process))  # type: ignore[arg-type]
+        instance._deserialize_communication(process)
+        return instance
diff --git a/hermespy/jcas/matched_filtering.py b/hermespy/jcas/matched_filtering.py
index c356f5f..1c84e6a 100644
--- a/hermespy/jcas/matched_filtering.py
+++ b/hermespy/jcas/matched_filtering.py
@@ -342,18 +342,20 @@ class MatchedFilterJcas(
         process.serialize_floating(self.max_range, "max_range")
         process.serialize_floating(self.max_velocity, "max_velocity")
         process.serialize_floating(self.velocity_resolution, "velocity_resolution")
-        if self.waveform is not None:
-            process.serialize_object(self.waveform, "waveform")
 
     @classmethod
     @override
-    def Deserialize(cls, process: DeserializationProcess) -> MatchedFilterJcas:
-        return MatchedFilterJcas(
-            process.deserialize_floating("max_range"),
-            process.deserialize_object("waveform", CommunicationWaveform, None),
-            max_velocity=process.deserialize_floating("max_velocity", cls._DEFAULT_MAX_VELOCITY),
-            velocity_resolution=process.deserialize_floating(
-                "velocity_resolution", cls._DEFAULT_VELOCITY_RESOLUTION
-            ),
-            **cls._DeserializeParameters(process),  # type: ignore[arg-type]
+    def _DeserializeParameters(cls, process: DeserializationProcess) -> dict[str, object]:
+        parameters = DuplexJCASOperator._DeserializeParameters(process)
+        parameters.update(
+            {
+                "max_range": process.deserialize_floating("max_range"),
+                "max_velocity": process.deserialize_floating(
+                    "max_velocity", cls._DEFAULT_MAX_VELOCITY
+                ),
+                "velocity_resolution": process.deserialize_floating(
+                    "velocity_resolution", cls._DEFAULT_VELOCITY_RESOLUTION
+                ),
+            }
         )
+        return parameters
diff --git a/hermespy/jcas/ofdm_radar.py b/hermespy/jcas/ofdm_radar.py
index a5f4e0d..a737aa1 100644
--- a/hermespy/jcas/ofdm_radar.py
+++ b/hermespy/jcas/ofdm_radar.py
@@ -2,7 +2,7 @@
 
 from __future__ import annotations
 from math import ceil
-from typing import Sequence, Type
+from typing import Sequence
 from typing_extensions import override
 
 import numpy as np
@@ -10,7 +10,7 @@ from scipy.constants import speed_of_light
 from scipy.fft import fft, fftshift, ifft
 
 from hermespy.beamforming import ReceiveBeamformer
-from hermespy.core import DeserializationProcess, Serializable, ReceiveState, Signal, TransmitState
+from hermespy.core import Serializable, ReceiveState, Signal, TransmitState
 from hermespy.jcas.jcas import JCASReception, JCASTransmission
 from hermespy.modem import OFDMWaveform, ReceivingModemBase, TransmittingModemBase, Symbols
 from hermespy.radar import RadarCube, RadarDetector, RadarReception
@@ -255,7 +255,3 @@ class OFDMRadar(DuplexJCASOperator[OFDMWaveform], Serializable):
         radar_reception = RadarReception(signal, cube, cloud)
         return JCASReception(communication_reception, radar_reception)
 
-    @classmethod
-    @override
-    def Deserialize(cls: Type[OFDMRadar], process: DeserializationProcess) -> OFDMRadar:
-        return cls(**cls._DeserializeParameters(process))  # type: ignore[arg-type]
-- 
2.43.0


From 7758c1b8260f3959883b403ce0076d1717fc83eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:41 +0000
Subject: [PATCH 125/138] fix: saved devices keep antennas, trajectory and
 noise level

---
 hermespy/simulation/simulated_device.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 8011c9b..7b4bcdc 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -52,6 +52,7 @@ from .rf import (
     N0,
     NoiseRealization,
     AWGN,
+    SNR,
 )
 from .isolation import Isolation, PerfectIsolation
 from .coupling import Coupling, PerfectCoupling
@@ -2078,12 +2079,15 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         Device.serialize(self, process)
+        process.serialize_object(self.trajectory, "trajectory")
+        process.serialize_object(self.antennas, "antennas")
         process.serialize_object(self.rf, "rf")
         process.serialize_object(self.isolation, "isolation")
         process.serialize_object(self.coupling, "coupling")
         process.serialize_object(self.trigger_model, "trigger_model")
-        # Note: Deactivated due to circular dependency
-        # process.serialize_object(self.noise_level, "noise_level")
+        # Note: Levels referring to a device are skipped due to circular dependency
+        if not isinstance(self.noise_level, SNR):  # type: ignore[operator]
+            process.serialize_object(self.noise_level, "noise_level")  # type: ignore[operator]
         process.serialize_object(self.noise_model, "noise_model")  # type: ignore[operator]
         process.serialize_floating(self.carrier_frequency, "carrier_frequency")
         process.serialize_floating(self.bandwidth, "bandwidth")
@@ -2123,4 +2127,10 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
     @override
     def Deserialize(cls, process: DeserializationProcess) -> SimulatedDevice:
         parameters = cls._DeserializeParameters(process)
-        return cls(**parameters)  # type: ignore[arg-type]
+
+        # The trajectory is represented by the pose argument during initialization
+        pose = parameters["pose"]
+        parameters["pose"] = process.deserialize_object("trajectory", Trajectory, pose)
+        device = cls(**parameters)  # type: ignore[arg-type]
+        device.pose = pose  # type: ignore[assignment]
+        return device
-- 
2.43.0


From 088897a57550ebfe0d385c15dedcc8c91a85ddbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:41 +0000
Subject: [PATCH 126/138] fix: trajectories can be restored from files

---
 hermespy/simulation/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermespy/simulation/__init__.py b/hermespy/simulation/__init__.py
index 9022aa8..2744dd7 100644
--- a/hermespy/simulation/__init__.py
+++ b/hermespy/simulation/__init__.py
@@ -1,5 +1,5 @@
 # -*- coding: utf-8 -*-
-from .animation import Trajectory, LinearTrajectory, StaticTrajectory
+from .animation import BITrajectoryB, LinearTrajectory, StaticTrajectory, Trajectory
 from .antennas import (
     SimulatedAntenna,
     SimulatedCustomArray,
@@ -98,6 +98,7 @@ __status__ = "Prototype"
 
 __all__ = [
     "Trajectory",
+    "BITrajectoryB",
     "LinearTrajectory",
     "StaticTrajectory",
     "SimulatedAntenna",
-- 
2.43.0


From 4d1022b0238c2b82a81499e03b7a16e97ba87896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:41 +0000
Subject: [PATCH 127/138] fix: saved front-end signals keep their noise power

---
 hermespy/simulation/rf/signal.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hermespy/simulation/rf/signal.py b/hermespy/simulation/rf/signal.py
index a643ef0..8215bb8 100644
--- a/hermespy/simulation/rf/signal.py
+++ b/hermespy/simulation/rf/signal.py
@@ -71,7 +71,7 @@ class RFSignal(DenseSignal):
             num_samples,
             sampling_rate,
             0.0 if _carrier_frequencies.size == 0 else _carrier_frequencies[0],
-            0.0 if _noise_powers.size == 0 else _noise_powers[0],
+            0.0 if _noise_powers.size == 0 else float(_noise_powers[0]),
             delay,
             buffer,
         )
@@ -250,7 +250,7 @@ class RFSignal(DenseSignal):
             if np.all(self.carrier_frequencies == self.carrier_frequencies[0]):
                 self.carrier_frequency = self.carrier_frequencies[0]
             if np.all(self.noise_powers == self.noise_powers[0]):
-                self.noise_power = self.noise_powers[0]
+                self.noise_power = float(self.noise_powers[0])
 
     @override
     def resample(self, sampling_rate: float, aliasing_filter: bool = True) -> RFSignal:
@@ -287,6 +287,7 @@ class RFSignal(DenseSignal):
         process.serialize_floating(self.sampling_rate, "sampling_rate")
         process.serialize_array(self.carrier_frequencies, "carrier_frequencies")
         process.serialize_array(self.noise_powers, "noise_powers")
+        process.serialize_floating(self.noise_power, "noise_power")
         process.serialize_floating(self.delay, "delay")
 
     @classmethod
@@ -298,7 +299,7 @@ class RFSignal(DenseSignal):
         noise_powers = process.deserialize_array("noise_powers", dtype=np.float64)
         delay = process.deserialize_floating("delay", 0.0)
 
-        return cls(
+        signal = cls(
             samples.shape[0],
             samples.shape[1],
             sampling_rate,
@@ -307,3 +308,5 @@ class RFSignal(DenseSignal):
             delay,
             buffer=samples.tobytes(),
         )
+        signal.noise_power = process.deserialize_floating("noise_power", signal.noise_power)
+        return signal
-- 
2.43.0


From b49f03aeb48ec7bddc4efb6ea07a152fe45ef3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:41 +0000
Subject: [PATCH 128/138] fix: finalizing a campaign closes its file

---
 hermespy/core/factory.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index a5b92a9..f984cdc 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -1001,9 +1001,9 @@ class HDFSerializationProcess(SerializationProcess):
 
     @override
     def finalize(self) -> None:
-        # Close the base file handle
-        if isinstance(self.__base_group, File):
-            self.__base_group.close()
+        # Close the base file handle, the base group may represent a campaign within the file
+        if self.__base_group:
+            self.__base_group.file.close()
 
     @staticmethod
     def _create_group(group: Group, name: str) -> Group:
@@ -1245,6 +1245,6 @@ class HDFDeserializationProcess(DeserializationProcess):
 
     @override
     def finalize(self) -> None:
-        # Close the base file handle
-        if isinstance(self.__base_group, File):
-            self.__base_group.close()
+        # Close the base file handle, the base group may represent a campaign within the file
+        if self.__base_group:
+            self.__base_group.file.close()
-- 
2.43.0


From 5a8c9abe8e69bb35f60afd9b986a128718fbbf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:41 +0000
Subject: [PATCH 129/138] fix: campaigns are validated before recording,
 changes redirect the recording

---
 hermespy/core/scenario.py | 50 +++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/hermespy/core/scenario.py b/hermespy/core/scenario.py
index 45de99d..03e6a24 100644
--- a/hermespy/core/scenario.py
+++ b/hermespy/core/scenario.py
@@ -83,6 +83,7 @@ class Scenario(
     __deserialization_process: DeserializationProcess | None  # Available during replay
     __drop_counter: int  # Internal drop counter
     __campaign: str  # Measurement campaign name
+    __recording: tuple[str, Scenario, bool, SerializationBackend] | None  # Recording settings
     __replay_file: str | None  # File path for replay
 
     def __init__(
@@ -110,6 +111,7 @@ class Scenario(
         self.__drop_counter = 0
         self.__campaign = "default"
         self.__replay_file = None
+        self.__recording = None
         self.__serialization_process = None
         self.__deserialization_process = None
 
@@ -337,15 +339,20 @@ class Scenario(
         if value == self.__campaign:
             return
 
-        # Setting the campaign will always reset the internal drop counter
-        self.__drop_counter = 0
-
         # When in replay mode, changing the campaign changes the number of replayed drops
         if self.mode == ScenarioMode.REPLAY:
             raise NotImplementedError(
                 "Changing the campaign name during replay is currently not supported"
             )
 
+        # When in record mode, the following drops are recorded to the new campaign
+        if self.mode == ScenarioMode.RECORD:
+            self.__serialization_process.finalize()
+            self.__start_recording(value)
+
+        # Setting the campaign will always reset the internal drop counter
+        self.__drop_counter = 0
+
         # Update the campaign identifier
         self.__campaign = value
 
@@ -413,6 +420,10 @@ class Scenario(
                 "Initialize a recording is only possible in default mode. Please stop before starting a new recording."
             )
 
+        # For serialization compatibility, the campaign name 'state' is reserved
+        if campaign == "state":
+            raise ValueError("The campaign name 'state' is reserved for serialization purposes")
+
         # Check wether the specified file already exists within the filesystem
         file_exists = path.exists(file)
 
@@ -422,21 +433,33 @@ class Scenario(
             file_exists = False
 
         # Start the serialization process
-        factory = Factory()
-        self.__serialization_process = factory.serialize(file, campaign, backend)
-
-        # Serialize the scenario's state, i.e. the device and operator configurations
-        if serialize_state:
-            self.__serialization_process.serialize_object(
-                self if state is None else state, "state", True
-            )
+        self.__recording = file, self if state is None else state, serialize_state, backend
+        self.__start_recording(campaign)
 
         # Switch mode flag and reset the drop counter
         self.__mode = ScenarioMode.RECORD
         self.__drop_counter = 0
+        self.__campaign = campaign
+
+    def __start_recording(self, campaign: str | None) -> None:
+        """Start the serialization process of a recording.
+
+        Args:
+            campaign: Name of the measurement campaign.
+        """
+
+        file, state, serialize_state, backend = self.__recording
+        process = Factory().serialize(file, campaign, backend)
+
+        # Serialize the scenario's state, i.e. the device and operator configurations
+        try:
+            if serialize_state:
+                process.serialize_object(state, "state", True)
+        except Exception:
+            process.finalize()
+            raise
 
-        # Create the campaign if it doesn't exists
-        self.campaign = campaign
+        self.__serialization_process = process
 
     def replay(
         self,
@@ -554,6 +577,7 @@ class Scenario(
         if self.__serialization_process is not None:
             self.__serialization_process.finalize()
             self.__serialization_process = None
+            self.__recording = None
             self.__drop_counter = 0
 
         # Finalize the deserialization process if in replay mode
-- 
2.43.0


From 47f25124398ca2e19c15bf4601f36f5caad767d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:41 +0000
Subject: [PATCH 130/138] fix: replay reproduces exactly the recorded drops

---
 hermespy/core/scenario.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/scenario.py b/hermespy/core/scenario.py
index 03e6a24..948af7e 100644
--- a/hermespy/core/scenario.py
+++ b/hermespy/core/scenario.py
@@ -509,8 +509,11 @@ class Scenario(
 
         # Get the overall number of drops
         num_available_drops = deserialization_process.sequence_length("drops")
-        if drop_offset >= num_available_drops:
-            raise ValueError("Drop offset is not smaller than the number of available drops")
+        if drop_offset < 0 or drop_offset >= num_available_drops:
+            deserialization_process.finalize()
+            raise ValueError(
+                "Drop offset is negative or not smaller than the number of available drops"
+            )
 
         # Stop any action and close file handles if required
         self.stop()
@@ -801,6 +804,9 @@ class Scenario(
         if self.__mode == ScenarioMode.DEFAULT:
             return 0
 
+        if self.__deserialization_process is not None:
+            return self.__deserialization_process.sequence_length("drops")
+
         return self.__drop_counter
 
     @classmethod
@@ -850,6 +856,8 @@ class Scenario(
                 raise RuntimeError("Replay scenario mode requires a valid deserialization process")
 
             # Recall the latest drop, identified by the campaign and the drop counter
+            if self.__drop_counter >= self.num_drops:
+                raise RuntimeError("All recorded drops have already been replayed")
             drop: DropType = self.__deserialization_process.deserialize_object_sequence(
                 "drops", self._drop_type(), self.__drop_counter, 1 + self.__drop_counter
             )[0]
-- 
2.43.0


From 37a296063bb33b7286f15aa8b78a3d94727810f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:41 +0000
Subject: [PATCH 131/138] fix: drops with a timestamp are recorded

---
 hermespy/core/scenario.py       | 17 ++++++++++++-----
 hermespy/simulation/scenario.py |  4 +++-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/hermespy/core/scenario.py b/hermespy/core/scenario.py
index 948af7e..a8c4c8a 100644
--- a/hermespy/core/scenario.py
+++ b/hermespy/core/scenario.py
@@ -877,14 +877,21 @@ class Scenario(
         else:
             # Generate a new drop
             drop = self._drop()
-
-            # Serialize the drop to HDF if in record mode
-            if self.mode == ScenarioMode.RECORD:
-                self.__serialization_process.serialize_object_sequence([drop], "drops", True, True)
-                self.__drop_counter += 1
+            self._record_drop(drop)
 
         return drop
 
+    def _record_drop(self, drop: DropType) -> None:
+        """Add a generated drop to the recording, if the scenario is in record mode.
+
+        Args:
+            drop: The drop to be recorded.
+        """
+
+        if self.mode == ScenarioMode.RECORD:
+            self.__serialization_process.serialize_object_sequence([drop], "drops", True, True)
+            self.__drop_counter += 1
+
 
 ScenarioType = TypeVar("ScenarioType", bound="Scenario")
 """Type of scenario."""
diff --git a/hermespy/simulation/scenario.py b/hermespy/simulation/scenario.py
index a3d82f5..e907e83 100644
--- a/hermespy/simulation/scenario.py
+++ b/hermespy/simulation/scenario.py
@@ -749,7 +749,9 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
         if timestamp is None:
             return Scenario.drop(self)
 
-        return self._drop(timestamp)
+        drop = self._drop(timestamp)
+        self._record_drop(drop)
+        return drop
 
     @overload
     def _drop(self, timestamps: float = 0.0) -> SimulatedDrop:
-- 
2.43.0


From 587a0cb6dc160ab9ef0679d99ffdc51f40d27e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:41 +0000
Subject: [PATCH 132/138] fix: failed serializations leave no partial groups

---
 hermespy/core/factory.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index f984cdc..1ea7640 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -929,7 +929,13 @@ class HDFSerializationProcess(SerializationProcess):
             new_process = HDFSerializationProcess(
                 self._tag_registry, self.__base_group, self.__group, dict(), dict()
             )
-            return new_process._serialize_object(obj, name, type, False)
+            try:
+                return new_process._serialize_object(obj, name, type, False)
+            except Exception:
+                # Do not leave incomplete objects behind
+                if name in self.__group:
+                    del self.__group[name]
+                raise
 
         obj_key: int = id(obj)
 
-- 
2.43.0


From 12093fbbfb8184a8b1a57b26b5359d8e2df5bfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:41 +0000
Subject: [PATCH 133/138] fix: rejected channel equalizations are not
 configured

---
 hermespy/modem/waveform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hermespy/modem/waveform.py b/hermespy/modem/waveform.py
index a8c98e9..d0a86c1 100644
--- a/hermespy/modem/waveform.py
+++ b/hermespy/modem/waveform.py
@@ -595,11 +595,12 @@ class CommunicationWaveform(ABC, Serializable):
 
     @channel_equalization.setter
     def channel_equalization(self, value: ChannelEqualization) -> None:
-        self.__channel_equalization = value
-
+        # Attaching may be rejected, so that it must precede the assignment
         if value.waveform is not self:
             value.waveform = self
 
+        self.__channel_equalization = value
+
     @property
     def symbol_precoding_support(self) -> bool:
         """Flag indicating if this waveforms supports symbol precodings.
-- 
2.43.0


From 684cdbc112c7b8b973e3a15dcbe1cf41617e15ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:41 +0000
Subject: [PATCH 134/138] fix: rejected modulation orders are not configured

---
 hermespy/modem/waveforms/orthogonal/waveform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermespy/modem/waveforms/orthogonal/waveform.py b/hermespy/modem/waveforms/orthogonal/waveform.py
index 6c93b80..546f404 100644
--- a/hermespy/modem/waveforms/orthogonal/waveform.py
+++ b/hermespy/modem/waveforms/orthogonal/waveform.py
@@ -1093,8 +1093,9 @@ class OrthogonalWaveform(ConfigurablePilotWaveform, ABC):
 
     @CommunicationWaveform.modulation_order.setter  # type: ignore
     def modulation_order(self, value: int) -> None:
+        mapping = PskQamMapping(value)
         CommunicationWaveform.modulation_order.fset(self, value)  # type: ignore
-        self.__mapping = PskQamMapping(value)
+        self.__mapping = mapping
 
     @override
     def symbol_energy(self, bandwidth: float, oversampling_factor: float) -> float:
-- 
2.43.0


From 5f0e386278ad30a8c3ddd4e1c0dd55f3b1a5599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:41 +0000
Subject: [PATCH 135/138] fix: replaced calibrations are detached from their
 device

---
 hermespy/hardware_loop/physical_device.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/hermespy/hardware_loop/physical_device.py b/hermespy/hardware_loop/physical_device.py
index eb80b2b..e9c9f63 100644
--- a/hermespy/hardware_loop/physical_device.py
+++ b/hermespy/hardware_loop/physical_device.py
@@ -174,7 +174,9 @@ class PhysicalDevice(Generic[PDST], Device[PDST]):
         if self.__leakage_calibration is value:
             return
 
+        previous_calibration = self.__leakage_calibration
         self.__leakage_calibration = value
+        previous_calibration._release(self)
 
         if self.__leakage_calibration.device is not self:
             self.__leakage_calibration.device = self
@@ -194,7 +196,10 @@ class PhysicalDevice(Generic[PDST], Device[PDST]):
         if self.__delay_calibration is value:
             return
 
+        previous_calibration = self.__delay_calibration
         self.__delay_calibration = value
+        previous_calibration._release(self)
+
         self.__delay_calibration.device = self
 
     @property
@@ -211,7 +216,10 @@ class PhysicalDevice(Generic[PDST], Device[PDST]):
         if self.__antenna_calibration is value:
             return
 
+        previous_calibration = self.__antenna_calibration
         self.__antenna_calibration = value
+        previous_calibration._release(self)
+
         self.__antenna_calibration.device = self
 
     def save_calibration(
@@ -745,6 +753,16 @@ class Calibration(ABC, Serializable):
         if self.__device is not None:
             self._configure_slot(self.__device, self)
 
+    def _release(self, device: PhysicalDevice) -> None:
+        """Notify the calibration that it has been replaced within a device.
+
+        Args:
+            device: The device which no longer applies this calibration.
+        """
+
+        if self.__device is device:
+            self.__device = None
+
     @property
     def transmit_ports(self) -> list[int] | None:
         """List of transmit port indices considered for this calibration.
-- 
2.43.0


From 0b458196ec04a32fefb9afb69d5c18b29f8d5dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:41 +0000
Subject: [PATCH 136/138] fix: devices of other scenarios are rejected before
 modifying the scenario

---
 hermespy/simulation/scenario.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermespy/simulation/scenario.py b/hermespy/simulation/scenario.py
index e907e83..effe313 100644
--- a/hermespy/simulation/scenario.py
+++ b/hermespy/simulation/scenario.py
@@ -240,6 +240,10 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
 
     def add_device(self, device: SimulatedDevice) -> None:
         # Add the device to the scenario
+        # Reject devices of other scenarios before modifying this scenario
+        if isinstance(device.scenario, Scenario) and device.scenario is not self:
+            raise ValueError("Error trying to add a device attached to another scenario")
+
         Scenario.add_device(self, device)
         device.scenario = self
 
-- 
2.43.0


From dca64762380d2d43439f90cd3f459503f9ed42f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:41 +0000
Subject: [PATCH 137/138] fix: rejected links are not registered

---
 hermespy/core/transformation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/transformation.py b/hermespy/core/transformation.py
index 828a1c7..358ea23 100644
--- a/hermespy/core/transformation.py
+++ b/hermespy/core/transformation.py
@@ -555,8 +555,9 @@ class TransformableLink(metaclass=ABCMeta):
             link:  The transformable frame to be registered.
         """
 
-        self.__linked_frames.add(link)
+        # Assigning the base may be rejected, so that it must precede the registration
         link.set_base(self)
+        self.__linked_frames.add(link)
 
     def remove_link(self, link: Transformable, force_removal: bool = True) -> None:
         """Remove an established link to this coordinate frame.
-- 
2.43.0


From 5f95bb8fee27f8b5f81a1acfcd9bcff5637b8e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:41 +0000
Subject: [PATCH 138/138] fix: rotations reject vectors of invalid size

---
 hermespy/core/transformation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hermespy/core/transformation.py b/hermespy/core/transformation.py
index 358ea23..d87ca85 100644
--- a/hermespy/core/transformation.py
+++ b/hermespy/core/transformation.py
@@ -164,6 +164,9 @@ class Transformation(np.ndarray, Serializable):
 
     @rotation_rpy.setter
     def rotation_rpy(self, value: np.ndarray) -> None:
+        if np.shape(value) != (3,):
+            raise ValueError("Roll, pitch and yaw must be a vector of three angles")
+
         self[:3, :3] = self._rotation_from_rpy(value)
 
     @staticmethod
@@ -259,6 +262,9 @@ class Transformation(np.ndarray, Serializable):
 
     @rotation_quaternion.setter
     def rotation_quaternion(self, value: np.ndarray) -> None:
+        if np.shape(value) != (4,):
+            raise ValueError("Quaternion must be a vector of four elements")
+
         self[:3, :3] = self._rotation_from_quaternion(value, False)
 
     @classmethod
@@ -345,6 +351,9 @@ class Transformation(np.ndarray, Serializable):
         Returns: The initialized transformation.
         """
 
+        if np.shape(rpy) != (3,):
+            raise ValueError("Roll, pitch and yaw must be a vector of three angles")
+
         # Generate empty transformation matrix
         transformation = np.empty((4, 4), dtype=float)
 
-- 
2.43.0

