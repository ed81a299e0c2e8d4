From 66d349bedd756db46fcd385046b2c9e2f5b1bc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:39 +0000
Subject: [PATCH 01/28] fix: breaking very small values crashed when the random
 range was empty

---
 break_value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/break_value.go b/break_value.go
index abfebc6..ab0b0cd 100644
--- a/break_value.go
+++ b/break_value.go
@@ -85,7 +85,7 @@ func BreakValue(value, breakValue uint64, addresses []AddressKeyID,
 			outputValue *= 1000
 		}
 
-		if rand.Intn(2) == 1 {
+		if outputValue >= 5 && rand.Intn(2) == 1 {
 			outputValue = outputValue - (outputValue / 10) +
 				uint64(rand.Int63n(int64(outputValue/5)))
 		}
@@ -218,7 +218,7 @@ func BreakValueLockingScripts(value, breakValue uint64, lockingScripts []bitcoin
 			outputValue *= 1000
 		}
 
-		if rand.Intn(2) == 1 {
+		if outputValue >= 5 && rand.Intn(2) == 1 {
 			outputValue = outputValue - (outputValue / 10) +
 				uint64(rand.Int63n(int64(outputValue/5)))
 		}
-- 
2.43.0


From 72ca12c583e367c933aebf0a7e0479ae47513d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:39 +0000
Subject: [PATCH 02/28] fix: breaking a value into a single piece divided by
 zero

---
 break_value.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/break_value.go b/break_value.go
index ab0b0cd..86f134c 100644
--- a/break_value.go
+++ b/break_value.go
@@ -169,7 +169,12 @@ func BreakValueLockingScripts(value, breakValue uint64, lockingScripts []bitcoin
 	// Choose random multiples of breakValue until the value is taken up.
 
 	// Find the average value to break the value into the provided lockingScripts
-	average := 2 * (value / uint64(len(lockingScripts)-1))
+	var average uint64
+	if len(lockingScripts) == 1 {
+		average = value
+	} else {
+		average = 2 * (value / uint64(len(lockingScripts)-1))
+	}
 
 	// Find the power to use for choosing random values
 	factor := average / breakValue
@@ -294,7 +299,12 @@ func BreakQuantity(value, breakValue uint64, count int) ([]uint64, error) {
 	// Choose random multiples of breakValue until the value is taken up.
 
 	// Find the average value to break the value into the provided addresses
-	average := 2 * (value / uint64(count-1))
+	var average uint64
+	if count == 1 {
+		average = value
+	} else {
+		average = 2 * (value / uint64(count-1))
+	}
 
 	// Find the power to use for choosing random values
 	factor := average / breakValue
-- 
2.43.0


From 97df9434e9885e1b0ba48dc3cd1aaac4e34a3859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:17 +0000
Subject: [PATCH 03/28] fix: breaking a quantity returned one piece more than
 requested

---
 break_value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/break_value.go b/break_value.go
index 86f134c..5575886 100644
--- a/break_value.go
+++ b/break_value.go
@@ -324,7 +324,7 @@ func BreakQuantity(value, breakValue uint64, count int) ([]uint64, error) {
 	rand.Seed(time.Now().UnixNano())
 	result := make([]uint64, 0, count)
 	nextIndex := 0
-	for i := 0; i < count; i++ {
+	for i := 0; i < count-1; i++ {
 		if remaining < breakValue {
 			break // remaining amount is less than dust required to include next address
 		}
-- 
2.43.0


From b91b02cf5003824f247f62c42259ba3fe40493df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:54 +0000
Subject: [PATCH 04/28] fix: updating the input after the last one crashed

---
 inputs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inputs.go b/inputs.go
index d13c0e7..91fa522 100644
--- a/inputs.go
+++ b/inputs.go
@@ -43,7 +43,7 @@ func (tx *TxBuilder) AddInputUTXO(utxo bitcoin.UTXO) error {
 }
 
 func (tx *TxBuilder) UpdateInputUTXO(index int, utxo bitcoin.UTXO) error {
-	if index > len(tx.MsgTx.TxIn) {
+	if index >= len(tx.MsgTx.TxIn) {
 		return errors.New("Input index out of range")
 	}
 
-- 
2.43.0


From 61d73c933ba65697928b52837a01c5ebb2dd0fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:55 +0000
Subject: [PATCH 05/28] fix: inserting an output past the end crashed

---
 outputs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/outputs.go b/outputs.go
index 413ce67..584cc5f 100644
--- a/outputs.go
+++ b/outputs.go
@@ -201,6 +201,10 @@ func (tx *TxBuilder) AddOutput(lockScript bitcoin.Script, value uint64,
 func (tx *TxBuilder) InsertOutput(index int, lockScript bitcoin.Script, value uint64,
 	isRemainder, isDust bool) error {
 
+	if index > len(tx.Outputs) || index > len(tx.MsgTx.TxOut) {
+		return errors.New("Output index out of range")
+	}
+
 	output := &OutputSupplement{
 		IsRemainder: isRemainder,
 		IsDust:      isDust,
-- 
2.43.0


From f0c1e045d77f2e3976e078874dd08db6b422f12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:55 +0000
Subject: [PATCH 06/28] fix: a rejected send max output left the transaction
 marked as send max

---
 outputs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/outputs.go b/outputs.go
index 584cc5f..cdc80a4 100644
--- a/outputs.go
+++ b/outputs.go
@@ -150,11 +150,11 @@ func (tx *TxBuilder) AddDustOutput(address bitcoin.RawAddress, isRemainder bool)
 // AddMaxOutput adds an output to TxBuilder with a script paying the specified address and the
 // remainder flag set so that it gets all remaining value after fees are taken.
 func (tx *TxBuilder) AddMaxOutput(address bitcoin.RawAddress) error {
-	tx.SendMax = true
 	script, err := address.LockingScript()
 	if err != nil {
 		return err
 	}
+	tx.SendMax = true
 	return tx.AddOutput(script, 0, true, false)
 }
 
-- 
2.43.0


From 305f6471e5f2899f8fb469d1a86ab2e33894d1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:55 +0000
Subject: [PATCH 07/28] fix: subtracting from an output below the dust limit
 wrapped around

---
 outputs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/outputs.go b/outputs.go
index cdc80a4..0df3705 100644
--- a/outputs.go
+++ b/outputs.go
@@ -272,7 +272,7 @@ func (tx *TxBuilder) SubtractValueFromOutput(index uint32, value uint64) error {
 
 	dust := DustLimitForOutput(tx.MsgTx.TxOut[index], tx.DustFeeRate)
 
-	if tx.MsgTx.TxOut[index].Value-dust < value {
+	if tx.MsgTx.TxOut[index].Value < dust || tx.MsgTx.TxOut[index].Value-dust < value {
 		return fmt.Errorf("Output value too small to subtract : %d - %d (dust %d)",
 			tx.MsgTx.TxOut[index].Value, value, dust)
 	}
-- 
2.43.0


From 265072860b0915db27abbc9fcbf16c02f0954397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:55 +0000
Subject: [PATCH 08/28] fix: shuffling the last outputs gave them the data of
 the first outputs

---
 break_value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/break_value.go b/break_value.go
index 5575886..9b8c5be 100644
--- a/break_value.go
+++ b/break_value.go
@@ -410,7 +410,7 @@ func (tx *TxBuilder) RandomizeOutputsAfter(index int) {
 	for i, txout := range tx.MsgTx.TxOut[index+1:] {
 		randOutputs[i] = &Output{
 			TxOut:      *txout,
-			Supplement: *tx.Outputs[i],
+			Supplement: *tx.Outputs[index+1+i],
 		}
 	}
 
-- 
2.43.0


From a2bc69ebfa7b2525d8e0ee3965a39607bdc5e726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:16 +0000
Subject: [PATCH 09/28] fix: do not fail funding when the change is below the
 fee of a change output

---
 inputs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inputs.go b/inputs.go
index 91fa522..23b4f16 100644
--- a/inputs.go
+++ b/inputs.go
@@ -219,7 +219,8 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 					}
 				}
 
-				if change > changeDustLimit+changeOutputFee {
+				// A change output worth less than its own fee can't be added.
+				if change > changeDustLimit+changeOutputFee && change >= 2*changeOutputFee {
 					// Add new change output
 					change -= changeOutputFee
 					if len(tx.ChangeScript) == 0 {
-- 
2.43.0


From 3b0d2101481ba3a53a4462d9487226f7b6307d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:37 +0000
Subject: [PATCH 10/28] fix: keep the fee for missing signatures when signing
 with only some keys

---
 sign.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sign.go b/sign.go
index 0bfd78f..f8d8694 100644
--- a/sign.go
+++ b/sign.go
@@ -110,7 +110,12 @@ func (tx *TxBuilder) Sign(keys []bitcoin.Key) ([]bitcoin.Key, error) {
 		}
 
 		// Check fee and adjust if too low
-		targetFee := int64(EstimatedFeeValue(uint64(tx.MsgTx.SerializeSize()), float64(tx.FeeRate)))
+		size := tx.MsgTx.SerializeSize()
+		if missingKey {
+			// Unlocking scripts are still missing, so the current size is below the final size.
+			size = tx.EstimatedSize()
+		}
+		targetFee := int64(EstimatedFeeValue(uint64(size), float64(tx.FeeRate)))
 		inputValue = tx.InputValue()
 		outputValue = tx.OutputValue(false)
 		changeValue := tx.changeSum()
-- 
2.43.0


From 59d4cdb4c9eb335b33d971ea9d1f4c002e5ed172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:24 +0000
Subject: [PATCH 11/28] fix: funding with broken change no longer fails when
 the draft is nearly funded

---
 inputs.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/inputs.go b/inputs.go
index 23b4f16..b090675 100644
--- a/inputs.go
+++ b/inputs.go
@@ -326,8 +326,6 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 
 	// Calculate additional funding needed. Include cost of first added input.
 	// TODO Add support for input scripts other than P2PKH.
-	estFeeValue = EstimatedFeeValue(estSize, feeRate)
-	neededFunding := estFeeValue + outputValue - inputValue
 	duplicateValue := uint64(0)
 
 	for _, utxo := range utxos {
@@ -346,20 +344,18 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 
 		estSize += uint64(inputSize)
 		estFeeValue = EstimatedFeeValue(estSize, feeRate)
-		neededFunding = estFeeValue + outputValue - inputValue
 		inputValue += utxo.Value
 
 		if tx.SendMax {
 			continue
 		}
 
-		if neededFunding <= utxo.Value {
+		if estFeeValue+outputValue <= inputValue {
 			// Funding complete
 			// Re-calculate fee without estimating first change output because BreakValue will take
 			// the fees out of the values.
 			finalFeeValue := EstimatedFeeValue(estSize-firstChangeOutputSize, feeRate)
-			finalNeededFunding := finalFeeValue + outputValue - inputValue + utxo.Value
-			changeValue := utxo.Value - finalNeededFunding
+			changeValue := inputValue - outputValue - finalFeeValue
 
 			if remainderIncluded {
 				for i, output := range tx.Outputs {
@@ -391,8 +387,6 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 		}
 
 		// More UTXOs required
-		estFeeValue = EstimatedFeeValue(estSize, feeRate)
-		neededFunding = estFeeValue + outputValue - inputValue
 	}
 
 	if tx.SendMax {
-- 
2.43.0


From 465088ea0d27be63a975fa59c595f439c60e0387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:46 +0000
Subject: [PATCH 12/28] fix: fund the growth of the input and output counts

---
 fees.go   |  7 +++++++
 inputs.go | 13 ++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/fees.go b/fees.go
index e054ae6..a77781a 100644
--- a/fees.go
+++ b/fees.go
@@ -357,6 +357,8 @@ func (tx *TxBuilder) AdjustFee(amount int64) (bool, error) {
 			} else {
 				newSize = currentSize + uint64(OutputSize(tx.ChangeScript))
 			}
+			outputCount := len(tx.MsgTx.TxOut)
+			newSize += countSizeIncrease(outputCount, outputCount+1)
 			newFee := EstimatedFeeValue(newSize, float64(tx.FeeRate))
 
 			changeOutputFee := newFee - currentFee
@@ -427,6 +429,11 @@ func VarIntSerializeSize(val uint64) int {
 	return 9
 }
 
+// countSizeIncrease returns the number of bytes the serialized count of inputs or outputs grows by.
+func countSizeIncrease(before, after int) uint64 {
+	return uint64(VarIntSerializeSize(uint64(after)) - VarIntSerializeSize(uint64(before)))
+}
+
 func EstimatedFeeValue(size uint64, feeRate float64) uint64 {
 	return uint64(math.Ceil(float64(size) * feeRate))
 }
diff --git a/inputs.go b/inputs.go
index b090675..dc00ed3 100644
--- a/inputs.go
+++ b/inputs.go
@@ -187,6 +187,9 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 		changeDustLimit = DustLimit(P2PKHOutputSize, tx.DustFeeRate)
 		changeOutputFee = uint64(float32(P2PKHOutputSize) * tx.FeeRate)
 	}
+	outputCount := len(tx.MsgTx.TxOut)
+	changeOutputFee += EstimatedFeeValue(countSizeIncrease(outputCount, outputCount+1),
+		float64(tx.FeeRate))
 
 	for _, utxo := range utxos {
 		if err := tx.AddInputUTXO(utxo); err != nil {
@@ -202,6 +205,9 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 			return errors.Wrap(err, "utxo fee")
 		}
 		neededFunding += inputFee // Add cost of input
+		inputCount := len(tx.MsgTx.TxIn)
+		neededFunding += EstimatedFeeValue(countSizeIncrease(inputCount-1, inputCount),
+			float64(tx.FeeRate))
 
 		if tx.SendMax {
 			continue
@@ -293,6 +299,10 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 	inputValue := tx.InputValue()
 	outputValue := tx.OutputValue(true)
 	estSize := uint64(tx.EstimatedSize()) + firstChangeOutputSize
+	if !remainderIncluded {
+		outputCount := len(tx.MsgTx.TxOut)
+		estSize += countSizeIncrease(outputCount, outputCount+len(changeAddresses))
+	}
 	feeRate := float64(tx.FeeRate)
 	estFeeValue := EstimatedFeeValue(estSize, feeRate)
 
@@ -342,7 +352,8 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 			return errors.Wrap(err, "input size")
 		}
 
-		estSize += uint64(inputSize)
+		inputCount := len(tx.MsgTx.TxIn)
+		estSize += uint64(inputSize) + countSizeIncrease(inputCount-1, inputCount)
 		estFeeValue = EstimatedFeeValue(estSize, feeRate)
 		inputValue += utxo.Value
 
-- 
2.43.0


From 3a10a03ef1fdb06030681305b93415e89169db8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:06 +0000
Subject: [PATCH 13/28] fix: funding a send max draft that has enough inputs
 without further coins

---
 inputs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inputs.go b/inputs.go
index dc00ed3..6e6f807 100644
--- a/inputs.go
+++ b/inputs.go
@@ -154,7 +154,7 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 		return tx.CalculateFee() // Already funded
 	}
 
-	if len(utxos) == 0 {
+	if len(utxos) == 0 && !tx.SendMax {
 		return errors.Wrap(ErrInsufficientValue, fmt.Sprintf("no more utxos: %d/%d",
 			inputValue, outputValue+estFeeValue))
 	}
@@ -329,7 +329,7 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 		}
 	}
 
-	if len(utxos) == 0 {
+	if len(utxos) == 0 && !tx.SendMax {
 		return errors.Wrap(ErrInsufficientValue, fmt.Sprintf("no more utxos: %d/%d", inputValue,
 			outputValue+estFeeValue))
 	}
-- 
2.43.0


From 27167815b79eac49fecb69cc9503142713d0d11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:33 +0000
Subject: [PATCH 14/28] fix: funding with broken change crashed without change
 addresses

---
 inputs.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/inputs.go b/inputs.go
index 6e6f807..630030d 100644
--- a/inputs.go
+++ b/inputs.go
@@ -306,12 +306,17 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 	feeRate := float64(tx.FeeRate)
 	estFeeValue := EstimatedFeeValue(estSize, feeRate)
 
-	changeLockingScript, err := changeAddresses[0].Address.LockingScript()
-	if err != nil {
-		return errors.Wrap(err, "change locking script")
-	}
+	var outputFee, inputFee uint64
+	if len(changeAddresses) > 0 {
+		changeLockingScript, err := changeAddresses[0].Address.LockingScript()
+		if err != nil {
+			return errors.Wrap(err, "change locking script")
+		}
 
-	outputFee, inputFee, _ := OutputTotalCost(changeLockingScript, tx.FeeRate)
+		outputFee, inputFee, _ = OutputTotalCost(changeLockingScript, tx.FeeRate)
+	} else if !remainderIncluded {
+		return ErrChangeAddressNeeded
+	}
 
 	// Check if tx is already funded.
 	if !tx.SendMax && inputValue > outputValue && inputValue-outputValue >= estFeeValue {
-- 
2.43.0


From eff3e715899ed4871fb579af1dfac1061bbd8511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:49:38 +0000
Subject: [PATCH 15/28] fix: draft made from a transaction with missing input
 data crashed when used

---
 txbuilder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/txbuilder.go b/txbuilder.go
index d542968..34e00f5 100644
--- a/txbuilder.go
+++ b/txbuilder.go
@@ -202,6 +202,7 @@ func NewTxBuilderFromWire(feeRate, dustFeeRate float32, tx *wire.MsgTx,
 			}
 		}
 		if !found {
+			result.Inputs[i] = &InputSupplement{}
 			missingErr = ErrMissingInputData
 		}
 	}
@@ -244,6 +245,7 @@ func NewTxBuilderFromWireUTXOs(feeRate, dustFeeRate float32, tx *wire.MsgTx,
 			}
 		}
 		if !found {
+			result.Inputs[i] = &InputSupplement{}
 			missingErr = ErrMissingInputData
 		}
 	}
-- 
2.43.0


From c312c82d616126a6cff37b815d5ba4dfc7330c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:54 +0000
Subject: [PATCH 16/28] fix: hash the original script bytes after a code
 separator

---
 sig_hash.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/sig_hash.go b/sig_hash.go
index ac29cb8..9478292 100644
--- a/sig_hash.go
+++ b/sig_hash.go
@@ -219,23 +219,20 @@ func writeSignatureHashPreimageBytes(w io.Writer, tx *wire.MsgTx, index int, loc
 // NOTE: This is only correct if the last OP_CODESEPARATOR is actually executed when the script is
 // executed, so there is room for error here depending on the locking script. --ce
 func afterOpCodeSeparator(lockScript []byte) ([]byte, error) {
-	items, err := bitcoin.ParseScriptItems(bytes.NewReader(lockScript), -1)
-	if err != nil {
-		return nil, errors.Wrap(err, "parse")
-	}
+	// Use the original bytes after the separator because writing the parsed items again can change
+	// how data is pushed, and the hash is of the script as it is in the output.
+	after := 0
+	buf := bytes.NewReader(lockScript)
+	for buf.Len() > 0 {
+		item, err := bitcoin.ParseScript(buf)
+		if err != nil {
+			return nil, errors.Wrap(err, "parse")
+		}
 
-	itemCount := len(items)
-	for i := itemCount - 1; i >= 0; i-- {
-		item := items[i]
 		if item.Type == bitcoin.ScriptItemTypeOpCode && item.OpCode == bitcoin.OP_CODESEPARATOR {
-			if i == itemCount-1 {
-				return nil, nil // OP_CODESEPARATOR is the last op code of the script
-			}
-
-			return items[i+1:].Script()
+			after = len(lockScript) - buf.Len()
 		}
 	}
 
-	// No OP_CODESEPARATOR found so return the full locking script.
-	return lockScript, nil
+	return lockScript[after:], nil
 }
-- 
2.43.0


From 457941930b0c928739c046faa88c39d5eae2383b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:10 +0000
Subject: [PATCH 17/28] fix: value of an input known only from its unlocking
 data

---
 fees/fees.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fees/fees.go b/fees/fees.go
index eb9b3d6..a847d42 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -233,7 +233,7 @@ func InputValue(txin *wire.TxIn, inputOutput *wire.TxOut) (uint64, error) {
 		return 0, MissingUnlockingData
 	}
 
-	return unlockingData.Size, nil
+	return unlockingData.Value, nil
 }
 
 func InputSizeForUnlockingScriptSize(unlockingScriptSize int) int {
-- 
2.43.0


From 9d221545f9d313413b313b131e5fa4a70e9b3c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:19 +0000
Subject: [PATCH 18/28] fix: estimating the unlocking size of unknown and agent
 transfer scripts

---
 fees/fees.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fees/fees.go b/fees/fees.go
index a847d42..d425882 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -139,8 +139,10 @@ func EstimateUnlockingSize(lockingScript bitcoin.Script) (int, error) {
 			int(required)*(MaxSignaturesPushDataSize+PublicKeyPushDataSize+1), nil
 	}
 
-	if info, err := agent_bitcoin_transfer.MatchScript(lockingScript); err != nil {
-		agentUnlockingSize, err := EstimateUnlockingSize(info.AgentLockingScript)
+	if info, err := agent_bitcoin_transfer.MatchScript(lockingScript); err == nil && info != nil {
+		agentLockingScript := info.AgentLockingScript.Copy()
+		agentLockingScript.RemoveHardVerify()
+		agentUnlockingSize, err := EstimateUnlockingSize(agentLockingScript)
 		if err != nil {
 			return 0, errors.Wrap(err, "agent")
 		}
-- 
2.43.0


From 872ae110e86768eb48c24dcc177f27fb79bc11c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:32 +0000
Subject: [PATCH 19/28] fix: reject negative amounts in create_send

---
 cmd/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index 3f5a018..fc35c4a 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -96,6 +96,10 @@ func CreateSend(ctx context.Context, cfg *Config, args []string) {
 		fmt.Printf("Invalid amount : %s : %s\n", args[2], err)
 		return
 	}
+	if amount < 0 {
+		fmt.Printf("Invalid amount : %s : negative\n", args[2])
+		return
+	}
 
 	tx := txbuilder.NewTxBuilder(cfg.FeeRate, cfg.DustFeeRate)
 	for i := 3; i < len(args); i++ {
-- 
2.43.0


From f90240da2165536d3e463835e007a807e3da8de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:14 +0000
Subject: [PATCH 20/28] fix: check that the fetched tx is the requested one

---
 cmd/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index fc35c4a..f2b5bbb 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -426,6 +426,10 @@ func GetTx(ctx context.Context, cfg *Config, hash bitcoin.Hash32) (*wire.MsgTx,
 		return nil, errors.Wrap(err, "decode tx")
 	}
 
+	if txid := *tx.TxHash(); !txid.Equal(&hash) {
+		return nil, fmt.Errorf("wrong tx : got %s, want %s", txid, hash)
+	}
+
 	return tx, nil
 }
 
-- 
2.43.0


From 90d3a953d53682aba4b464f94de28bb2c092218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:42 +0000
Subject: [PATCH 21/28] fix: do not print transactions without outputs

---
 cmd/main.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index f2b5bbb..733a063 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -144,6 +144,11 @@ func CreateSend(ctx context.Context, cfg *Config, args []string) {
 		return
 	}
 
+	if len(tx.MsgTx.TxOut) == 0 {
+		fmt.Printf("Insufficient value for an output\n")
+		return
+	}
+
 	buf := &bytes.Buffer{}
 	if err := tx.MsgTx.Serialize(buf); err != nil {
 		fmt.Printf("Failed to serialize tx : %s\n", err)
@@ -227,6 +232,11 @@ func CreateSends(ctx context.Context, cfg *Config, args []string) {
 		return
 	}
 
+	if len(tx.MsgTx.TxOut) == 0 {
+		fmt.Printf("Insufficient value for an output\n")
+		return
+	}
+
 	buf := &bytes.Buffer{}
 	if err := tx.MsgTx.Serialize(buf); err != nil {
 		fmt.Printf("Failed to serialize tx : %s\n", err)
@@ -276,6 +286,11 @@ func CreateSends(ctx context.Context, cfg *Config, args []string) {
 			return
 		}
 
+		if len(tx.MsgTx.TxOut) == 0 {
+			fmt.Printf("Insufficient value for an output\n")
+			return
+		}
+
 		buf := &bytes.Buffer{}
 		if err := tx.MsgTx.Serialize(buf); err != nil {
 			fmt.Printf("Failed to serialize tx : %s\n", err)
-- 
2.43.0


From 6943bb5347e0e64e4fbd3bbb37a81736651862b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:00 +0000
Subject: [PATCH 22/28] fix: adding to an output value could wrap around

---
 outputs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/outputs.go b/outputs.go
index 0df3705..10dc1de 100644
--- a/outputs.go
+++ b/outputs.go
@@ -259,6 +259,10 @@ func (tx *TxBuilder) AddValueToOutput(index uint32, value uint64) error {
 		tx.Outputs[index].IsDust = false
 		tx.MsgTx.TxOut[index].Value = value
 	} else {
+		if tx.MsgTx.TxOut[index].Value+value < value {
+			return fmt.Errorf("Output value too large to add : %d + %d",
+				tx.MsgTx.TxOut[index].Value, value)
+		}
 		tx.MsgTx.TxOut[index].Value += value
 	}
 	return nil
-- 
2.43.0


From 3650bb6eb93022f036f325e3405ebeaa8192d965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:42:39 +0000
Subject: [PATCH 23/28] fix: create_sends printed a transaction when none was
 requested

---
 cmd/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index 733a063..2df246b 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -183,6 +183,10 @@ func CreateSends(ctx context.Context, cfg *Config, args []string) {
 		fmt.Printf("Invalid amount : %s : %s\n", args[0], err)
 		return
 	}
+	if count < 1 {
+		fmt.Printf("Invalid count : %s : must be at least one\n", args[0])
+		return
+	}
 
 	key, err := bitcoin.KeyFromStr(args[1])
 	if err != nil {
-- 
2.43.0


From 4354920565cac21b24b72a541fb9532ad6666c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:12 +0000
Subject: [PATCH 24/28] fix: pieces of very large quantities could wrap around

---
 break_value.go | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/break_value.go b/break_value.go
index 9b8c5be..91dfac7 100644
--- a/break_value.go
+++ b/break_value.go
@@ -1,6 +1,7 @@
 package txbuilder
 
 import (
+	"math"
 	"math/rand"
 	"time"
 
@@ -74,18 +75,18 @@ func BreakValue(value, breakValue uint64, addresses []AddressKeyID,
 		}
 
 		inc := BreakIncrements[rand.Intn(len(BreakIncrements))]
-		outputValue := breakValue * inc
+		outputValue := breakMultiple(breakValue, inc)
 		switch rand.Intn(exponent) {
 		case 0: // *= 1
 		case 1:
-			outputValue *= 10
+			outputValue = breakMultiple(outputValue, 10)
 		case 2:
-			outputValue *= 100
+			outputValue = breakMultiple(outputValue, 100)
 		case 3:
-			outputValue *= 1000
+			outputValue = breakMultiple(outputValue, 1000)
 		}
 
-		if outputValue >= 5 && rand.Intn(2) == 1 {
+		if outputValue >= 5 && outputValue <= math.MaxUint64/2 && rand.Intn(2) == 1 {
 			outputValue = outputValue - (outputValue / 10) +
 				uint64(rand.Int63n(int64(outputValue/5)))
 		}
@@ -212,18 +213,18 @@ func BreakValueLockingScripts(value, breakValue uint64, lockingScripts []bitcoin
 		}
 
 		inc := BreakIncrements[rand.Intn(len(BreakIncrements))]
-		outputValue := breakValue * inc
+		outputValue := breakMultiple(breakValue, inc)
 		switch rand.Intn(exponent) {
 		case 0: // *= 1
 		case 1:
-			outputValue *= 10
+			outputValue = breakMultiple(outputValue, 10)
 		case 2:
-			outputValue *= 100
+			outputValue = breakMultiple(outputValue, 100)
 		case 3:
-			outputValue *= 1000
+			outputValue = breakMultiple(outputValue, 1000)
 		}
 
-		if outputValue >= 5 && rand.Intn(2) == 1 {
+		if outputValue >= 5 && outputValue <= math.MaxUint64/2 && rand.Intn(2) == 1 {
 			outputValue = outputValue - (outputValue / 10) +
 				uint64(rand.Int63n(int64(outputValue/5)))
 		}
@@ -330,18 +331,18 @@ func BreakQuantity(value, breakValue uint64, count int) ([]uint64, error) {
 		}
 
 		inc := BreakIncrements[rand.Intn(len(BreakIncrements))]
-		quantity := breakValue * inc
+		quantity := breakMultiple(breakValue, inc)
 		switch rand.Intn(exponent) {
 		case 0: // *= 1
 		case 1:
-			quantity *= 10
+			quantity = breakMultiple(quantity, 10)
 		case 2:
-			quantity *= 100
+			quantity = breakMultiple(quantity, 100)
 		case 3:
-			quantity *= 1000
+			quantity = breakMultiple(quantity, 1000)
 		}
 
-		if quantity >= 10 && rand.Intn(2) == 1 {
+		if quantity >= 10 && quantity <= math.MaxUint64/2 && rand.Intn(2) == 1 {
 			quantity = quantity - (quantity / 10) + uint64(rand.Int63n(int64(quantity/5)))
 		}
 
@@ -370,6 +371,14 @@ func BreakQuantity(value, breakValue uint64, count int) ([]uint64, error) {
 	return result, nil
 }
 
+// breakMultiple multiplies the value. The result is limited to the highest value.
+func breakMultiple(value, multiple uint64) uint64 {
+	if value > math.MaxUint64/multiple {
+		return math.MaxUint64
+	}
+	return value * multiple
+}
+
 // AddOutputs appends the specified outputs to the tx.
 func (tx *TxBuilder) AddOutputs(outputs []*Output) {
 	for _, output := range outputs {
-- 
2.43.0


From df4dfb76e7ab4486536a6c67772d759d344389e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:01:19 +0000
Subject: [PATCH 25/28] fix: funding an already funded draft turned payments
 into change

---
 inputs.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/inputs.go b/inputs.go
index 630030d..a4af0a8 100644
--- a/inputs.go
+++ b/inputs.go
@@ -323,10 +323,13 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 		if !remainderIncluded {
 			// Ensure added change output is funded
 			if inputValue-outputValue >= estFeeValue+outputFee+inputFee {
-				if err := tx.SetChangeAddress(changeAddresses[0].Address,
-					changeAddresses[0].KeyID); err != nil {
-					return errors.Wrap(err, "set change address")
+				// Don't use SetChangeAddress because it turns payments to this address into change.
+				changeScript, err := changeAddresses[0].Address.LockingScript()
+				if err != nil {
+					return errors.Wrap(err, "change locking script")
 				}
+				tx.ChangeScript = changeScript
+				tx.ChangeKeyID = changeAddresses[0].KeyID
 				return tx.CalculateFee() // Already funded
 			}
 		} else {
-- 
2.43.0


From 6b32d763945d67b88c1966cd98085c3101ae1250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:38:51 +0000
Subject: [PATCH 26/28] fix: printed size of a transaction with announced
 inputs used the size of the announcement

---
 print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/print.go b/print.go
index d6e321c..b8fce54 100644
--- a/print.go
+++ b/print.go
@@ -67,7 +67,7 @@ func TxString(tx expanded_tx.TransactionWithOutputs) string {
 
 				inputsValue += unlockData.Value
 				inputsSize += InputBaseSize + wire.VarIntSerializeSize(uint64(unlockData.Size)) +
-					len(txin.UnlockingScript)
+					int(unlockData.Size)
 				continue
 			}
 		}
-- 
2.43.0


From b8072ca71bec60d3870ad22b8dcdc89e484e4a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:38:51 +0000
Subject: [PATCH 27/28] fix: printed output amounts were rounded

---
 txbuilder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/txbuilder.go b/txbuilder.go
index 34e00f5..c25e0f8 100644
--- a/txbuilder.go
+++ b/txbuilder.go
@@ -295,7 +295,8 @@ func (tx *TxBuilder) String(net bitcoin.Network) string {
 	}
 	result += "  Outputs:\n\n"
 	for i, output := range tx.MsgTx.TxOut {
-		result += fmt.Sprintf("    Value: %.08f\n", float32(output.Value)/100000000.0)
+		result += fmt.Sprintf("    Value: %d.%08d\n", output.Value/100000000,
+			output.Value%100000000)
 		result += fmt.Sprintf("    LockingScript: %s\n", output.LockingScript)
 		ra, err := bitcoin.RawAddressFromLockingScript(output.LockingScript)
 		if err == nil {
-- 
2.43.0


From a7744c541ab8ad125e1effbd57a1b8817116fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:53:49 +0000
Subject: [PATCH 28/28] fix: shuffling the outputs after a position past the
 end crashed

---
 break_value.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/break_value.go b/break_value.go
index 91dfac7..94261dd 100644
--- a/break_value.go
+++ b/break_value.go
@@ -414,6 +414,10 @@ func (tx *TxBuilder) RandomizeOutputs() {
 // example an index of zero will leave the first output in place. Be careful not to do this on txs
 // that depend on outputs being at a specific index.
 func (tx *TxBuilder) RandomizeOutputsAfter(index int) {
+	if index >= len(tx.MsgTx.TxOut) {
+		return // no outputs after the index
+	}
+
 	randLength := len(tx.MsgTx.TxOut) - (index + 1)
 	randOutputs := make([]*Output, randLength)
 	for i, txout := range tx.MsgTx.TxOut[index+1:] {
-- 
2.43.0

