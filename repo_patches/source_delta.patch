From e490349702d3f375e53c5ebf2aa73967fc8fcae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 001/150] fix: cancelExec passes its arguments to the callable

---
 packages/function/src/control/cancelExec.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/control/cancelExec.ts b/packages/function/src/control/cancelExec.ts
index 256c3eb..d8810c0 100644
--- a/packages/function/src/control/cancelExec.ts
+++ b/packages/function/src/control/cancelExec.ts
@@ -42,7 +42,7 @@ export default function cancelExec<R, A extends unknown[]>(
 
     return [
         Promise.race([
-            toPromise(callable),
+            toPromise(callable, args),
             new Promise(resolve => {
                 abort = payload => resolve(toPromise(payload, args));
             })
-- 
2.43.0


From 03fa44d6b3109e94446033eed1c36c65542b808e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 002/150] fix: select passes its arguments to the condition

---
 packages/function/src/select/select.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/select/select.ts b/packages/function/src/select/select.ts
index a712db0..7341a3f 100644
--- a/packages/function/src/select/select.ts
+++ b/packages/function/src/select/select.ts
@@ -24,7 +24,7 @@ export default async function select<A extends unknown[], T>(
     doElse?: ((...args: A) => any) | Promise<any> | T | null | undefined,
     ...args: A
 ): Promise<T | null | undefined> {
-    return (await executeToPromise(condition))
+    return (await executeToPromise(condition, args))
         ? executeToPromise(doIf, args)
         : executeToPromise(doElse, args);
 }
-- 
2.43.0


From 8a1b97e9f65b85ede7df349ce1af6493623a6258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 003/150] fix: timeoutOr clears its timer when the callable
 fails

---
 packages/function/src/timeout/timeoutOr.ts | 25 ++++++++++++----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/packages/function/src/timeout/timeoutOr.ts b/packages/function/src/timeout/timeoutOr.ts
index bcc91d2..872679b 100644
--- a/packages/function/src/timeout/timeoutOr.ts
+++ b/packages/function/src/timeout/timeoutOr.ts
@@ -32,15 +32,18 @@ export default async function timeoutOr<A extends unknown[], R1, R2>(
     ...args: A
 ) {
     let timer;
-    const ret = await Promise.race([
-        toPromise(callable, args),
-        new Promise(resolve => {
-            timer = setTimeout(
-                () => resolve(executeToPromise(callback, args)),
-                timeoutMsResolve(duration)
-            );
-        })
-    ]);
-    clearTimeout(timer);
-    return ret;
+
+    try {
+        return await Promise.race([
+            toPromise(callable, args),
+            new Promise(resolve => {
+                timer = setTimeout(
+                    () => resolve(executeToPromise(callback, args)),
+                    timeoutMsResolve(duration)
+                );
+            })
+        ]);
+    } finally {
+        clearTimeout(timer);
+    }
 }
-- 
2.43.0


From a231172cf92e3052571427499b5f685a8887a202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 004/150] fix: toggle alternates when a value is NaN or a
 signed zero

---
 packages/function/src/select/toggle.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/function/src/select/toggle.ts b/packages/function/src/select/toggle.ts
index 9f6327a..bfd8fb6 100644
--- a/packages/function/src/select/toggle.ts
+++ b/packages/function/src/select/toggle.ts
@@ -38,7 +38,9 @@ export default function toggle<L, R>(
 
         /** 切换当前值 */
         toggle() {
-            value = value === defaultValue ? reverseValue : defaultValue;
+            value = Object.is(value, defaultValue)
+                ? reverseValue
+                : defaultValue;
             return value;
         },
 
-- 
2.43.0


From d15d21c8d7873ceb2e4c2501ce5e1b3021bf455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 005/150] fix: a curried function keeps every argument of a
 later call

---
 packages/function/src/currying.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/currying.ts b/packages/function/src/currying.ts
index 0146f95..88c4155 100644
--- a/packages/function/src/currying.ts
+++ b/packages/function/src/currying.ts
@@ -93,7 +93,7 @@ function currying(fn: (...args: any[]) => any): (...args: any[]) => any {
     return function curried(...args: any[]) {
         return args.length >= depth
             ? fn.apply(fn, args)
-            : (arg: any) => curried(...args, arg);
+            : (...rest: any[]) => curried(...args, ...rest);
     };
 }
 
-- 
2.43.0


From 0f7c00d4c548b91a044f8ee919a3bc3db491cb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 006/150] fix: singletonClass of a subclass does not return the
 instance of its parent

---
 packages/function/src/class/singletonClass.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/function/src/class/singletonClass.ts b/packages/function/src/class/singletonClass.ts
index a83fc6f..c8daf2c 100644
--- a/packages/function/src/class/singletonClass.ts
+++ b/packages/function/src/class/singletonClass.ts
@@ -36,7 +36,12 @@ export default function singletonClass<T extends Class>(classTarget: T) {
                 return Reflect.construct(target, argumentsList, newTarget);
             }
 
-            if (!target[CLASS_SINGLETON_KEY]) {
+            if (
+                !Object.prototype.hasOwnProperty.call(
+                    target,
+                    CLASS_SINGLETON_KEY
+                )
+            ) {
                 target[CLASS_SINGLETON_KEY] = Reflect.construct(
                     target,
                     argumentsList,
-- 
2.43.0


From 897d5d42da70122497baf51e6b7dab253a0691c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:33 +0000
Subject: [PATCH 007/150] fix: collectItems delivers items submitted while a
 batch is pending

---
 packages/function/src/control/collectItems.ts | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/packages/function/src/control/collectItems.ts b/packages/function/src/control/collectItems.ts
index 91c3b3b..dce22b1 100644
--- a/packages/function/src/control/collectItems.ts
+++ b/packages/function/src/control/collectItems.ts
@@ -87,17 +87,18 @@ export default function collectItems(options?: any) {
             ((isUndefined(total) && isDoneOnce) ||
                 (isUint(total) && !(promises.length % total)))
         ) {
-            return await Promise.all(promises).then(value => {
-                if (!isRestart) {
-                    isOverOnce = true;
-                }
+            // 在等待之前就截取本批次，以免等待期间新添加的 `Promise` 丢失或被重复收集
+            const batch = promises.slice();
 
-                if (!isAccumulate) {
-                    promises.length = 0;
-                }
+            if (!isRestart) {
+                isOverOnce = true;
+            }
 
-                return { done: true, value };
-            });
+            if (!isAccumulate) {
+                promises.length = 0;
+            }
+
+            return { done: true, value: await Promise.all(batch) };
         }
 
         return { done: false, value: void 0 };
-- 
2.43.0


From 1b7f505dfdcdd6501e2cbff96de7223198881dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:55 +0000
Subject: [PATCH 008/150] fix: timeoutOr ignores the callable once the limit
 has passed

---
 packages/function/src/timeout/timeoutOr.ts | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/packages/function/src/timeout/timeoutOr.ts b/packages/function/src/timeout/timeoutOr.ts
index 872679b..f969473 100644
--- a/packages/function/src/timeout/timeoutOr.ts
+++ b/packages/function/src/timeout/timeoutOr.ts
@@ -34,15 +34,13 @@ export default async function timeoutOr<A extends unknown[], R1, R2>(
     let timer;
 
     try {
-        return await Promise.race([
-            toPromise(callable, args),
-            new Promise(resolve => {
-                timer = setTimeout(
-                    () => resolve(executeToPromise(callback, args)),
-                    timeoutMsResolve(duration)
-                );
-            })
-        ]);
+        return await new Promise((resolve, reject) => {
+            toPromise(callable, args).then(resolve, reject);
+            timer = setTimeout(
+                () => resolve(executeToPromise(callback, args)),
+                timeoutMsResolve(duration)
+            );
+        });
     } finally {
         clearTimeout(timer);
     }
-- 
2.43.0


From 7a586e6bc81ec31100d52dc0e84e3cd87ee27341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:55 +0000
Subject: [PATCH 009/150] fix: a duration range reaches every value from start
 to end

---
 packages/function/src/timeout/constants/evaluateInt.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/function/src/timeout/constants/evaluateInt.ts b/packages/function/src/timeout/constants/evaluateInt.ts
index fc7fc04..0a49fff 100644
--- a/packages/function/src/timeout/constants/evaluateInt.ts
+++ b/packages/function/src/timeout/constants/evaluateInt.ts
@@ -55,8 +55,8 @@ export default function evaluateInt(value: EvaluableIntValue): number {
                     end === start
                         ? end
                         : start < end
-                          ? range(end, start)
-                          : range(start, end);
+                          ? range(start, end)
+                          : range(end, start);
 
                 if (!isIntSafe(ret)) {
                     throw new TypeError(
-- 
2.43.0


From 30b55bf6665d2cda48a91c7cd77b09b664722bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 010/150] fix: cancelExec ignores the callable once it has been
 aborted

---
 packages/function/src/control/cancelExec.ts | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/packages/function/src/control/cancelExec.ts b/packages/function/src/control/cancelExec.ts
index d8810c0..0188bd0 100644
--- a/packages/function/src/control/cancelExec.ts
+++ b/packages/function/src/control/cancelExec.ts
@@ -40,13 +40,10 @@ export default function cancelExec<R, A extends unknown[]>(
 ): [Promise<R>, (payload?: Payload<R, A>) => void] {
     let abort: (payload?: Payload<R, A>) => void;
 
-    return [
-        Promise.race([
-            toPromise(callable, args),
-            new Promise(resolve => {
-                abort = payload => resolve(toPromise(payload, args));
-            })
-        ]),
-        abort!
-    ];
+    const promise = new Promise<any>((resolve, reject) => {
+        abort = payload => resolve(toPromise(payload, args));
+        toPromise(callable, args).then(resolve, reject);
+    });
+
+    return [promise, abort!];
 }
-- 
2.43.0


From be5c647d0d0985d0a2e5871bc683beca758fdfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:36 +0000
Subject: [PATCH 011/150] fix: splitChunk stores the remaining elements in a
 single extra part

---
 packages/array/src/splitChunk.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/array/src/splitChunk.ts b/packages/array/src/splitChunk.ts
index f35399b..c3b3f91 100644
--- a/packages/array/src/splitChunk.ts
+++ b/packages/array/src/splitChunk.ts
@@ -44,10 +44,16 @@ export default function splitChunk<T>(
     const d = len % length;
     const f = Math.floor(len / length);
 
-    if (isZero(d) || isUndefined(padPosition)) {
+    if (isZero(d)) {
         return splitByStep(value, f);
     }
 
+    if (isUndefined(padPosition)) {
+        const n = len - d;
+
+        return splitByStep(value.slice(0, n), f).concat([value.slice(n)]);
+    }
+
     if (isEqual(padPosition, 'start')) {
         const n = d * f + d;
         const a = splitByStep(value.slice(0, n), f + 1);
-- 
2.43.0


From a1addc4428e52ca6ecc2aae42a26b95d4cd7a925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:36 +0000
Subject: [PATCH 012/150] fix: toTree accepts ids that are names of
 Object.prototype members

---
 packages/array/src/convert/toTree.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/packages/array/src/convert/toTree.ts b/packages/array/src/convert/toTree.ts
index 10561a5..2c626bb 100644
--- a/packages/array/src/convert/toTree.ts
+++ b/packages/array/src/convert/toTree.ts
@@ -109,7 +109,11 @@ export default function toTree(
     const rootItems: TreeItem[] = [];
 
     // 存储所有已处理的项，使用它们的 `id` 作为键，以便于查找
-    const lookup: { [id: string]: TreeItem } = {};
+    const lookup: { [id: string]: TreeItem } = Object.create(null);
+
+    // 只使用 `rootParentIds` 自身的属性，以免将 `constructor` 之类的 `id` 误认为根元素
+    const isRootParentId = (id: any) =>
+        hasOwnProperty(rootParentIds, id) && rootParentIds[id];
 
     // 存储所有尚未添加到结果树中的项的 `id`
     // 这是一个可选属性，因为它有轻微的运行时开销
@@ -133,7 +137,7 @@ export default function toTree(
             parentId = item[pid];
         }
 
-        if (rootParentIds[itemId]) {
+        if (isRootParentId(itemId)) {
             throw new Error(
                 `items 数组中包含一个节点，它的 parentId 既存在于另一个节点中又在 rootParentIds 中。` +
                     `{itemId: "${itemId}", rootParentIds: ${JSON.stringify(Object.keys(rootParentIds))}}`
@@ -167,7 +171,7 @@ export default function toTree(
 
         const treeItem = lookup[itemId];
 
-        if (parentId == null || rootParentIds[parentId]) {
+        if (parentId == null || isRootParentId(parentId)) {
             // 是一个根项
             rootItems.push(treeItem);
         } else {
-- 
2.43.0


From 9613e53a2174460efeb12db2a198f2a975ec0090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:36 +0000
Subject: [PATCH 013/150] fix: toObject keeps an entry whose key is __proto__

---
 packages/array/src/convert/toObject.ts | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/packages/array/src/convert/toObject.ts b/packages/array/src/convert/toObject.ts
index 1b20eb4..7a5f824 100644
--- a/packages/array/src/convert/toObject.ts
+++ b/packages/array/src/convert/toObject.ts
@@ -27,11 +27,7 @@ export default function toObject<T, U>(
     makeKey: (value: T) => string,
     makeValue: (value: T) => U
 ): Record<string, U> {
-    const result: Record<string, U> = {};
-
-    for (const value of array) {
-        result[makeKey(value)] = makeValue(value);
-    }
-
-    return result;
+    return Object.fromEntries(
+        Array.from(array, value => [makeKey(value), makeValue(value)])
+    );
 }
-- 
2.43.0


From 5e1173500213a89b2c8444497825d43bcc69c52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:36 +0000
Subject: [PATCH 014/150] fix: isMultiDimensional rejects the dimensions 0 and
 NaN

---
 packages/array/src/dimension/isMultiDimensional.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/array/src/dimension/isMultiDimensional.ts b/packages/array/src/dimension/isMultiDimensional.ts
index fa10575..227b041 100644
--- a/packages/array/src/dimension/isMultiDimensional.ts
+++ b/packages/array/src/dimension/isMultiDimensional.ts
@@ -38,7 +38,7 @@ export default function isMultiDimensional<T extends unknown[][]>(
     let level = 1;
     let internal = value;
 
-    if (dimension && (!isUint(dimension) || dimension < 2)) {
+    if (dimension !== undefined && (!isUint(dimension) || dimension < 2)) {
         throw new TypeError(
             `[isMultiDimensional] level 不是一个有效的大于 1 的正整数: ${dimension}`
         );
-- 
2.43.0


From 675649db8635c0bf595e432b540ad0af04570c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 015/150] fix: amountInWords writes a zero for a section of
 zeros and ignores leading zeros

---
 packages/number/src/amount/amountInWords.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/number/src/amount/amountInWords.ts b/packages/number/src/amount/amountInWords.ts
index 4a5b7b9..5652e71 100644
--- a/packages/number/src/amount/amountInWords.ts
+++ b/packages/number/src/amount/amountInWords.ts
@@ -16,7 +16,9 @@ const isNilNumber = (value: number) => isZero(value) || isNaN(value);
 const convertInteger = (amount: string): string => {
     const parts = amount.split('.');
     const integer = parts[0].replace('-', '');
-    const integerNumbers = parseInt(integer) ? integer.split('').reverse() : [];
+    const integerNumbers = parseInt(integer)
+        ? integer.replace(/^0+/, '').split('').reverse()
+        : [];
 
     if (integerNumbers.length > MAX_INT_LENGTH) {
         throw new TypeError(
@@ -32,6 +34,11 @@ const convertInteger = (amount: string): string => {
         const chunkKey = i / 4;
 
         if (isNilNumber(parseInt(chunk.join('')))) {
+            // 整节都是 0，如果后面还有数字，就需要写一个 `零` 字
+            if (result.length && result[0] !== DIGIT_UNITS[0]) {
+                result.unshift(DIGIT_UNITS[0]);
+            }
+
             continue;
         }
 
-- 
2.43.0


From 860b418aa06e9eade72d6668c9962b744924be08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:36 +0000
Subject: [PATCH 016/150] fix: amountInWords writes the zero digits of the
 decimal part as the rules state

---
 packages/number/src/amount/amountInWords.ts | 35 ++++++++++-----------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/packages/number/src/amount/amountInWords.ts b/packages/number/src/amount/amountInWords.ts
index 5652e71..e16bb4b 100644
--- a/packages/number/src/amount/amountInWords.ts
+++ b/packages/number/src/amount/amountInWords.ts
@@ -1,4 +1,4 @@
-import { isFinite, isNaN, isZero } from '@curong/types';
+import { isEqual, isFinite, isNaN, isZero } from '@curong/types';
 
 import type { AmountInWordsOptions } from './types';
 
@@ -83,28 +83,27 @@ const convertDecimal = (amount: string): string => {
         );
     }
 
-    const angle = parseInt(decimalNumbers.shift() ?? '');
-    const dnl = decimalNumbers.filter(n => !!n).length;
+    // 末尾的 0 不需要写出来
+    while (decimalNumbers[decimalNumbers.length - 1] === '0') {
+        decimalNumbers.pop();
+    }
 
-    if (angle) {
-        result.push(DIGIT_UNITS[angle], FRACTION_UNITS[0]);
+    decimalNumbers.forEach((number, key) => {
+        if (number === '0') {
+            return;
+        }
 
-        if (isZero(dnl)) {
-            result.push('整');
+        // 中间连续有几个 0 时，只写一个 `零` 字
+        if (decimalNumbers[key - 1] === '0' && (integer || result.length)) {
+            result.push(DIGIT_UNITS[0]);
         }
-    } else if (dnl > 0 && integer) {
-        result.push(DIGIT_UNITS[0]);
-    }
 
-    for (const key in decimalNumbers) {
-        const number = decimalNumbers[key];
+        result.push(DIGIT_UNITS[parseInt(number)], FRACTION_UNITS[key]);
+    });
 
-        if (number) {
-            result.push(
-                DIGIT_UNITS[parseInt(number)],
-                FRACTION_UNITS[parseInt(key) + 1]
-            );
-        }
+    // 到角为止的，需要写 `整` 字
+    if (isEqual(decimalNumbers.length, 1)) {
+        result.push('整');
     }
 
     return result.join('');
-- 
2.43.0


From c496beb1f720864dd378edc5fb2f6c3422a09736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 017/150] fix: maxRecursionDepth of an array that holds only
 empty slots is 1

---
 packages/array/src/maxRecursionDepth.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/array/src/maxRecursionDepth.ts b/packages/array/src/maxRecursionDepth.ts
index 2180ff2..d1a3fd9 100644
--- a/packages/array/src/maxRecursionDepth.ts
+++ b/packages/array/src/maxRecursionDepth.ts
@@ -47,6 +47,6 @@ export default function maxRecursionDepth<T extends any[]>(
 
     return Math.max.apply(
         null,
-        value.reduce((m, v) => m.concat(maxRecursionDepth(v) + 1), [])
+        value.reduce((m, v) => m.concat(maxRecursionDepth(v) + 1), [1])
     );
 }
-- 
2.43.0


From 02c52cec984dcc5f3e6c2edfa883d397d62adfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 018/150] fix: withDelimiter inserts a delimiter that contains
 $ as it is

---
 packages/number/src/withDelimiter.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/number/src/withDelimiter.ts b/packages/number/src/withDelimiter.ts
index b26a320..f699907 100644
--- a/packages/number/src/withDelimiter.ts
+++ b/packages/number/src/withDelimiter.ts
@@ -42,7 +42,7 @@ export default function withDelimiter(
     const [integerPart, decimalPart] = numStr.split('.');
 
     const regex = new RegExp(`\\B(?=(\\d{${capacity}})+(?!\\d))`, 'g');
-    const integerWithCommas = integerPart.replace(regex, delimiter);
+    const integerWithCommas = integerPart.replace(regex, () => delimiter);
 
     return decimalPart
         ? `${integerWithCommas}.${decimalPart}`
-- 
2.43.0


From 6262cca3b31fa8ca957c4a9245be4818dc7394f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 019/150] fix: toFiniteNumber returns the default for a value
 that cannot be converted

---
 packages/number/src/toFiniteNumber.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/number/src/toFiniteNumber.ts b/packages/number/src/toFiniteNumber.ts
index e3c00e4..c1b5442 100644
--- a/packages/number/src/toFiniteNumber.ts
+++ b/packages/number/src/toFiniteNumber.ts
@@ -26,5 +26,12 @@ export default function toFiniteNumber(
     value: any,
     defaultValue: number
 ): number {
-    return isFinite((value = +value)) ? value : defaultValue;
+    try {
+        value = Number(value);
+    } catch {
+        // 例如 Symbol 类型的值，不能被转换为数字
+        return defaultValue;
+    }
+
+    return isFinite(value) ? value : defaultValue;
 }
-- 
2.43.0


From 066dee910ab07d7913c24c7948fae05b4209cccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 020/150] fix: toTree does not report a parent as missing
 because its id has another type

---
 packages/array/src/convert/toTree.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/array/src/convert/toTree.ts b/packages/array/src/convert/toTree.ts
index 2c626bb..3267e55 100644
--- a/packages/array/src/convert/toTree.ts
+++ b/packages/array/src/convert/toTree.ts
@@ -117,7 +117,7 @@ export default function toTree(
 
     // 存储所有尚未添加到结果树中的项的 `id`
     // 这是一个可选属性，因为它有轻微的运行时开销
-    const orphanIds: null | Set<string | number> = throwIfOrphans
+    const orphanIds: null | Set<string> = throwIfOrphans
         ? new Set()
         : null;
 
@@ -152,7 +152,7 @@ export default function toTree(
 
         // 如果我们跟踪孤立节点，如果此项在孤立节点集中，则将其删除
         if (orphanIds) {
-            orphanIds.delete(itemId);
+            orphanIds.delete(`${itemId}`);
         }
 
         // 将当前项的数据添加到查找表中的项中
@@ -184,7 +184,7 @@ export default function toTree(
 
                 // 如果我们跟踪孤立节点，将生成的父项添加到孤立节点列表中
                 if (orphanIds) {
-                    orphanIds.add(parentId);
+                    orphanIds.add(`${parentId}`);
                 }
             }
 
-- 
2.43.0


From ea8a11c20ce76761c5b8eb8053eb649e6cdfd324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 021/150] fix: amountInWords rejects amounts that are not in
 decimal notation

---
 packages/number/src/amount/amountInWords.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/number/src/amount/amountInWords.ts b/packages/number/src/amount/amountInWords.ts
index e16bb4b..3155388 100644
--- a/packages/number/src/amount/amountInWords.ts
+++ b/packages/number/src/amount/amountInWords.ts
@@ -156,6 +156,13 @@ export default function amountInWords(
 
     amount = `${amount}`.trim();
 
+    // 数额太大或太小的数字会使用科学计数法来表示
+    if (!/^[+-]?\d*\.?\d*$/.test(amount)) {
+        throw new TypeError(
+            `[amountInWords] amount 必须使用十进制的小数形式来表示: ${amount}`
+        );
+    }
+
     let integerResult = convertInteger(amount);
     const decimalResult = convertDecimal(amount);
 
-- 
2.43.0


From 9e5da15d3defbffbf8c95d5ba78ace98ca89c387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 022/150] fix: fromCascadeKeys keeps the second of two keys and
 leaves its argument alone

---
 packages/object/src/cascade/fromCascadeKeys.ts | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/packages/object/src/cascade/fromCascadeKeys.ts b/packages/object/src/cascade/fromCascadeKeys.ts
index ae34cba..53e8410 100644
--- a/packages/object/src/cascade/fromCascadeKeys.ts
+++ b/packages/object/src/cascade/fromCascadeKeys.ts
@@ -56,18 +56,14 @@ export default function fromCascadeKeys(
     }
 
     // 获取到第一项
-    let first = addPack(keys.shift()!, oc, false);
+    const [firstKey, ...restKeys] = keys;
+    let first = addPack(firstKey, oc, false);
 
     // 如果不需要给第一项的开头加 `.`
     if (!startDot && first.startsWith('.')) {
         first = first.slice(1);
     }
 
-    // 如果属性数组中只有一项，则直接返回
-    if (keys.length === 1) {
-        return first;
-    }
-
     // 遍历剩余项
-    return keys.reduce((m, k) => (m.push(addPack(k, oc)), m), [first]).join('');
+    return restKeys.reduce((m, k) => (m.push(addPack(k, oc)), m), [first]).join('');
 }
-- 
2.43.0


From f7edeef8e4bbf4a2c5b29041c5ed1bc0897bd7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:37 +0000
Subject: [PATCH 023/150] fix: cascade does not run code that is part of a
 property name

---
 packages/object/src/cascade/fromCascadeKeys.ts | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/packages/object/src/cascade/fromCascadeKeys.ts b/packages/object/src/cascade/fromCascadeKeys.ts
index 53e8410..bef90ac 100644
--- a/packages/object/src/cascade/fromCascadeKeys.ts
+++ b/packages/object/src/cascade/fromCascadeKeys.ts
@@ -15,15 +15,21 @@ const addPack = (
 
     //# 处理字符串
 
-    if (/^[^0-9][\w$]*$/.test(key)) {
+    if (/^[\p{L}_$][\w$]*$/u.test(key)) {
         return isAppendWen ? `${optionalChar}.${key}` : `.${key}`;
     }
 
-    if (/^('[^']+'|"[^"]+")$/.test(key)) {
+    if (/^('[^'\\\r\n]+'|"[^"\\\r\n]+")$/.test(key)) {
         return `[${key}]`;
     }
 
-    return `['${key}']`;
+    // 转义属性名中的特殊字符，以免将属性名中的内容当作代码来执行
+    const escaped = key
+        .replace(/['\\]/g, '\\$&')
+        .replace(/\r/g, '\\r')
+        .replace(/\n/g, '\\n');
+
+    return `['${escaped}']`;
 };
 
 /**
-- 
2.43.0


From 7e29253a700b776c7ea85468e92328bf59aca400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:40 +0000
Subject: [PATCH 024/150] fix: toCascadeKeys accepts the dependencies 0 and ''
 and ignores inherited ones

---
 packages/object/src/cascade/toCascadeKeys.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/object/src/cascade/toCascadeKeys.ts b/packages/object/src/cascade/toCascadeKeys.ts
index c77c680..6d41716 100644
--- a/packages/object/src/cascade/toCascadeKeys.ts
+++ b/packages/object/src/cascade/toCascadeKeys.ts
@@ -1,6 +1,6 @@
 import { chars } from '@curong/string';
 import { format } from '@curong/term';
-import { isArrayIndex } from '@curong/types';
+import { hasOwnProperty, isArrayIndex, isNullOrUndefined } from '@curong/types';
 
 import type { ObjectType } from '../types';
 
@@ -66,9 +66,11 @@ export default function toCascadeKeys(
             return nk;
         }
 
-        const v = dependencies[key];
+        const v = hasOwnProperty(dependencies, key)
+            ? dependencies[key]
+            : undefined;
 
-        if (!v) {
+        if (isNullOrUndefined(v)) {
             throw format({
                 name,
                 message: `"${key}" 属性并未在 dependencies 参数中定义`,
-- 
2.43.0


From 5e31f874dc41acb1c13ba4971b1169843197a4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 025/150] fix: toCascadeKeys finds brackets after characters
 beyond the basic plane

---
 packages/object/src/cascade/toCascadeKeys.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/packages/object/src/cascade/toCascadeKeys.ts b/packages/object/src/cascade/toCascadeKeys.ts
index 6d41716..3a23c71 100644
--- a/packages/object/src/cascade/toCascadeKeys.ts
+++ b/packages/object/src/cascade/toCascadeKeys.ts
@@ -1,4 +1,3 @@
-import { chars } from '@curong/string';
 import { format } from '@curong/term';
 import { hasOwnProperty, isArrayIndex, isNullOrUndefined } from '@curong/types';
 
@@ -36,7 +35,6 @@ export default function toCascadeKeys(
     let tmpKey = '';
 
     const name = 'toCascadeKeys';
-    const charsArray = chars(value);
     const pushK = (key: string) => (key = key.trimEnd()) && ret.push(key);
 
     const vKey = (key: string) => {
@@ -81,8 +79,8 @@ export default function toCascadeKeys(
         return v;
     };
 
-    for (let i = 0, m = -1, len = charsArray.length; i < len; i++) {
-        const char = charsArray[i];
+    for (let i = 0, m = -1, len = value.length; i < len; i++) {
+        const char = value[i];
 
         switch (char) {
             case '.':
-- 
2.43.0


From 0eff5e5497975921690018e36fbd6366581ee7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 026/150] fix: sortKeys leaves nested objects alone unless deep
 is set

---
 packages/object/src/keys/sortKeys.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/object/src/keys/sortKeys.ts b/packages/object/src/keys/sortKeys.ts
index 5d13a51..e3d077b 100644
--- a/packages/object/src/keys/sortKeys.ts
+++ b/packages/object/src/keys/sortKeys.ts
@@ -88,7 +88,7 @@ export default function sortKeys(
                 ...descriptor,
                 ...(get || set
                     ? { get, set }
-                    : { value: processValue(object[key]) })
+                    : { value: deep ? processValue(object[key]) : object[key] })
             });
         }
 
-- 
2.43.0


From 1ac31d839b441c3a3e8b9d00fd0182d84e54a3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 027/150] fix: deleteAttrs does not empty the array of keys it
 is given

---
 packages/object/src/deleteAttrs.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/packages/object/src/deleteAttrs.ts b/packages/object/src/deleteAttrs.ts
index c0fd294..4b3cb04 100644
--- a/packages/object/src/deleteAttrs.ts
+++ b/packages/object/src/deleteAttrs.ts
@@ -22,12 +22,11 @@ export default function deleteAttrs<T extends ObjectType>(
     obj: T,
     deleteKeys: Array<keyof T>
 ): T {
+    const keys = deleteKeys.slice();
     let key: PropertyKey | undefined;
 
-    while (!isUndefined((key = deleteKeys.pop()))) {
+    while (!isUndefined((key = keys.pop()))) {
         if (!Reflect.deleteProperty(obj, key)) {
-            deleteKeys.push(key as keyof T);
-
             return derive(obj, deleteKeys);
         }
     }
-- 
2.43.0


From 92e0b70f7e2cc5598dcb9a0a6d1abb76d3082a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 028/150] fix: stringify keeps a property whose name is
 __proto__

---
 packages/object/src/stringify.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/object/src/stringify.ts b/packages/object/src/stringify.ts
index 42300f1..cf0399e 100644
--- a/packages/object/src/stringify.ts
+++ b/packages/object/src/stringify.ts
@@ -53,7 +53,13 @@ const safeStringifyReplacer = (
 
             for (let i = 0, k, len = keys.length; i < len; i++) {
                 k = keys[i];
-                newValue[k] = internal(value[k], path.concat(k));
+                // 使用 `defineProperty` 以保留名为 `__proto__` 的属性
+                Object.defineProperty(newValue, k, {
+                    value: internal(value[k], path.concat(k)),
+                    configurable: true,
+                    enumerable: true,
+                    writable: true
+                });
             }
         }
 
-- 
2.43.0


From d08218e28c23fc197b60f75c172b13f6aa7b2e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 029/150] fix: stringify recognises numbers in the list of keys
 to keep

---
 packages/object/src/stringify.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/object/src/stringify.ts b/packages/object/src/stringify.ts
index cf0399e..8839af7 100644
--- a/packages/object/src/stringify.ts
+++ b/packages/object/src/stringify.ts
@@ -132,7 +132,7 @@ export default function stringify(
             return replacer(k, safeStringifyReplacer(v, compare, cycles));
         };
     } else if (isArray(replacer)) {
-        const memo = new Set(replacer);
+        const memo = new Set(replacer.map(String));
         handler = (k: string, v: any) => {
             // 第一次时，`key` 为空
             if (!k) {
-- 
2.43.0


From b946fec39aa46de96482a44da6573af526ecf954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:30 +0000
Subject: [PATCH 030/150] fix: toLowerCaseKey keeps a property whose name is
 __proto__

---
 packages/object/src/keys/toLowerCaseKey.ts | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/packages/object/src/keys/toLowerCaseKey.ts b/packages/object/src/keys/toLowerCaseKey.ts
index d7b399e..861e51c 100644
--- a/packages/object/src/keys/toLowerCaseKey.ts
+++ b/packages/object/src/keys/toLowerCaseKey.ts
@@ -27,6 +27,15 @@ export default function toLowerCaseKey(
 ): ObjectType {
     const set = new Set();
 
+    // 使用 `defineProperty` 以保留名为 `__proto__` 的属性
+    const define = (memo: ObjectType, key: string, value: any) =>
+        Object.defineProperty(memo, key, {
+            value,
+            configurable: true,
+            enumerable: true,
+            writable: true
+        });
+
     return Reflect.ownKeys(object).reduce((memo, key) => {
         const value = object[key];
 
@@ -39,9 +48,9 @@ export default function toLowerCaseKey(
         key = key.toLocaleLowerCase();
 
         if (isCover) {
-            memo[key] = value;
+            define(memo, key, value);
         } else if (!set.has(key)) {
-            memo[key] = value;
+            define(memo, key, value);
             set.add(key);
         }
 
-- 
2.43.0


From c6879766ec1c161ed3d22b440791976591396642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 031/150] fix: derive leaves out a property that is given as a
 number

---
 packages/object/src/derive.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/object/src/derive.ts b/packages/object/src/derive.ts
index 15e0260..e9ec1b4 100644
--- a/packages/object/src/derive.ts
+++ b/packages/object/src/derive.ts
@@ -1,4 +1,4 @@
-import { isUndefined } from '@curong/types';
+import { isNumber, isUndefined } from '@curong/types';
 
 import type { ObjectType } from './types';
 
@@ -28,7 +28,10 @@ export default function derive<T extends ObjectType>(
     deleteKeys?: Array<keyof T>
 ) {
     const ret = Object.create(Object.getPrototypeOf(obj));
-    const keysSet: Set<PropertyKey> = new Set(deleteKeys);
+    // `Reflect.ownKeys` 返回的键中没有数字
+    const keysSet: Set<PropertyKey> = new Set(
+        deleteKeys?.map(key => (isNumber(key) ? `${key}` : key))
+    );
     const objKeys = Reflect.ownKeys(obj);
     let key: PropertyKey | undefined;
 
-- 
2.43.0


From 48e83a265eb07ae6989effa6d584304b69f0c379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:40 +0000
Subject: [PATCH 032/150] fix: parseCookie keeps a value that contains =

---
 packages/cookie/src/cookie/parse.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/cookie/src/cookie/parse.ts b/packages/cookie/src/cookie/parse.ts
index 5cde997..3ac6980 100644
--- a/packages/cookie/src/cookie/parse.ts
+++ b/packages/cookie/src/cookie/parse.ts
@@ -80,8 +80,11 @@ export default function parseCookie(
     ) {
         switch (cookie[i]) {
             case '=':
-                key = cookie.slice(star, i).trim();
-                star = i + 1;
+                // 值中也可以包含 `=`
+                if (!isString(key)) {
+                    key = cookie.slice(star, i).trim();
+                    star = i + 1;
+                }
                 break;
 
             case ';':
-- 
2.43.0


From 6c6f21cf262d0641ba06fc65972f86f5c9c1d50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:42 +0000
Subject: [PATCH 033/150] fix: parseCookie does not give the value of a
 nameless part to the next name

---
 packages/cookie/src/cookie/parse.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/cookie/src/cookie/parse.ts b/packages/cookie/src/cookie/parse.ts
index 3ac6980..90b9e43 100644
--- a/packages/cookie/src/cookie/parse.ts
+++ b/packages/cookie/src/cookie/parse.ts
@@ -88,7 +88,10 @@ export default function parseCookie(
                 break;
 
             case ';':
-                value = getDecode(cookie.slice(star, i), decode);
+                // 没有名称的片段不属于任何一个 `cookie`
+                if (isString(key)) {
+                    value = getDecode(cookie.slice(star, i), decode);
+                }
                 star = i + 1;
                 break;
 
-- 
2.43.0


From 2b1f8a79c905003c087e5447131d483f38173035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:43 +0000
Subject: [PATCH 034/150] fix: parseCookie keeps the last pair when the text
 ends with a line break

---
 packages/cookie/src/cookie/parse.ts | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/packages/cookie/src/cookie/parse.ts b/packages/cookie/src/cookie/parse.ts
index 90b9e43..a3b1cf6 100644
--- a/packages/cookie/src/cookie/parse.ts
+++ b/packages/cookie/src/cookie/parse.ts
@@ -94,10 +94,6 @@ export default function parseCookie(
                 }
                 star = i + 1;
                 break;
-
-            // NOTE: 逻辑是否正确呢?
-            case '\n':
-                continue;
         }
 
         if (isString(key)) {
-- 
2.43.0


From 70b0ff7d30e9566a870f7578cda62edcb0788348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:45 +0000
Subject: [PATCH 035/150] fix: createCookie does not expire a cookie that has
 no maxAge

---
 packages/cookie/src/cookie/create.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/cookie/src/cookie/create.ts b/packages/cookie/src/cookie/create.ts
index 0f9c9a0..5f63398 100644
--- a/packages/cookie/src/cookie/create.ts
+++ b/packages/cookie/src/cookie/create.ts
@@ -4,7 +4,8 @@ import {
     isFunctionFilled,
     isString,
     isStringFilled,
-    isTrue
+    isTrue,
+    isUndefined
 } from '@curong/types';
 
 import type { CreateCookieOptions } from './types';
@@ -69,7 +70,8 @@ export default function createCookie(
         [key: string]: (value: any, chunk: string[]) => string[];
     } = {
         maxAge(v: number, chunk: string[]) {
-            chunk.push(`Max-Age=${isFinite(v) ? Math.floor(v) : 0}`);
+            !isUndefined(v) &&
+                chunk.push(`Max-Age=${isFinite(v) ? Math.floor(v) : 0}`);
             return chunk;
         },
 
-- 
2.43.0


From 2396504cdbf78a7383a66601af6f0035277eac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:47 +0000
Subject: [PATCH 036/150] fix: createCookie works without options

---
 packages/cookie/src/cookie/create.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/cookie/src/cookie/create.ts b/packages/cookie/src/cookie/create.ts
index 5f63398..ee52b79 100644
--- a/packages/cookie/src/cookie/create.ts
+++ b/packages/cookie/src/cookie/create.ts
@@ -46,7 +46,7 @@ import type { CreateCookieOptions } from './types';
 export default function createCookie(
     name: string,
     value: string,
-    options: CreateCookieOptions
+    options?: CreateCookieOptions
 ): string {
     const verifyReg = /^[\u0009\u0020-\u007e\u0080-\u00ff]+$/;
 
@@ -128,7 +128,7 @@ export default function createCookie(
         .reduce(
             (memo: string[], v: string) => {
                 return compiler[v](
-                    options[v as keyof CreateCookieOptions],
+                    options?.[v as keyof CreateCookieOptions],
                     memo
                 );
             },
-- 
2.43.0


From bce25a56b49e484621f54b56a01edbc59c5f861a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:49 +0000
Subject: [PATCH 037/150] fix: splitSetCookie terminates on trailing blanks and
 drops the blanks after a comma

---
 packages/cookie/src/setCookie/split.ts | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/packages/cookie/src/setCookie/split.ts b/packages/cookie/src/setCookie/split.ts
index e371fcf..3ae7ec4 100644
--- a/packages/cookie/src/setCookie/split.ts
+++ b/packages/cookie/src/setCookie/split.ts
@@ -2,14 +2,6 @@ import { isStringFilled } from '@curong/types';
 
 import { COMMA, EQUAL, SEMICOLON, whiteSpaceReg } from './constants';
 
-const skipSpace = (cookie: string, index: number) => {
-    while (index < cookie.length && whiteSpaceReg.test(cookie.charAt(index))) {
-        index += 1;
-    }
-
-    return index < cookie.length;
-};
-
 /**
  * 将以逗号合并在一起的 `set-cookie` 字符串转换为 `set-cookie` 字符串数组
  *
@@ -47,6 +39,17 @@ export default function splitSetCookie(cookie: string): string[] {
     let nextStart: number;
     let isSep: boolean;
 
+    const skipSpace = () => {
+        while (
+            index < cookie.length &&
+            whiteSpaceReg.test(cookie.charAt(index))
+        ) {
+            index += 1;
+        }
+
+        return index < cookie.length;
+    };
+
     const isSpecial = () => {
         char = cookie.charAt(index);
         return char !== EQUAL && char !== SEMICOLON && char !== COMMA;
@@ -56,13 +59,13 @@ export default function splitSetCookie(cookie: string): string[] {
         start = index;
         isSep = false;
 
-        while (skipSpace(cookie, index)) {
+        while (skipSpace()) {
             char = cookie.charAt(index);
             if (char === COMMA) {
                 last = index;
                 index += 1;
 
-                skipSpace(cookie, index);
+                skipSpace();
                 nextStart = index;
 
                 while (index < cookie.length && isSpecial()) {
-- 
2.43.0


From 9cb943a3d0ae0576c15d40f59b156c268ff240b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:51 +0000
Subject: [PATCH 038/150] fix: parseSetCookie accepts the attributes Secure and
 HttpOnly

---
 packages/cookie/src/setCookie/parse.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/cookie/src/setCookie/parse.ts b/packages/cookie/src/setCookie/parse.ts
index 2767dc0..5f83b69 100644
--- a/packages/cookie/src/setCookie/parse.ts
+++ b/packages/cookie/src/setCookie/parse.ts
@@ -80,7 +80,8 @@ function parseChunk(cookie: string, isDecode: boolean = true) {
     return parts.reduce((cookie: SetCookieItem, part: string) => {
         const sides = part.split(equalReg);
 
-        if (sides.length <= 1) {
+        // `Secure` 和 `HttpOnly` 没有值
+        if (sides.length <= 1 && !/^(?:secure|httponly)$/i.test(part)) {
             throw new EvalError(
                 `[parseChunk]: part使用等号拆分却只拆分出来一个值出来，"${part}"`
             );
-- 
2.43.0


From 3dbc6caccbb049c2ea091f466f2807ca75ffccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:04 +0000
Subject: [PATCH 039/150] fix: parseSetCookie accepts a cookie that has no
 attributes

---
 packages/cookie/src/setCookie/parse.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/cookie/src/setCookie/parse.ts b/packages/cookie/src/setCookie/parse.ts
index 5f83b69..79c1a0e 100644
--- a/packages/cookie/src/setCookie/parse.ts
+++ b/packages/cookie/src/setCookie/parse.ts
@@ -55,9 +55,10 @@ const setCookieValue = (cookie: SetCookieItem, key: string, value: string) => {
 function parseChunk(cookie: string, isDecode: boolean = true) {
     const parts = cookie.split(semicolonReg).filter(isStringFilled);
 
-    if (parts.length <= 1) {
+    // `cookie` 可以没有属性，但是必须有名称和值
+    if (!parts.length || !parts[0].includes(EQUAL)) {
         throw new EvalError(
-            `[parseChunk]: cookie使用分号拆分却只拆分出来一个值出来，"${cookie}"`
+            `[parseChunk]: cookie中没有名称和值，"${cookie}"`
         );
     }
 
-- 
2.43.0


From c3912b9d89bd2d573fe0cc303ac6a36369e58b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:45 +0000
Subject: [PATCH 040/150] fix: bytesArray encodes characters beyond the basic
 plane and lone surrogates as UTF-8

---
 packages/string/src/bytes/bytesArray.ts | 37 +++++++++++--------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/packages/string/src/bytes/bytesArray.ts b/packages/string/src/bytes/bytesArray.ts
index f19545a..6880ad8 100644
--- a/packages/string/src/bytes/bytesArray.ts
+++ b/packages/string/src/bytes/bytesArray.ts
@@ -17,30 +17,25 @@ import codePointAt from '../character/codePointAt';
 export default function bytesArray(value: string): number[] {
     const buffers = [];
 
-    for (let point = 0, next = 0, i = 0, len = value.length; i < len; i++) {
+    for (let point = 0, i = 0, len = value.length; i < len; i++) {
         point = codePointAt(value, i)!;
 
-        if (point >= 0xd800 && point <= 0xdbff) {
-            next = codePointAt(value, i)!;
-
-            if (next >= 0xdc00 && next <= 0xdfff) {
-                point = (point - 0xd800) * 0x400 + next - 0xdc00 + 0x10000;
-                i++;
-
-                if (point > 0xffff) {
-                    buffers.push(
-                        (0x1e << 3) | (point >>> 18),
-                        (0x2 << 6) | ((point >>> 12) & 0x3f),
-                        (0x2 << 6) | ((point >>> 6) & 0x3f),
-                        (0x2 << 6) | (point & 0x3f)
-                    );
+        // 代理对
+        if (point > 0xffff) {
+            i++;
+            buffers.push(
+                (0x1e << 3) | (point >>> 18),
+                (0x2 << 6) | ((point >>> 12) & 0x3f),
+                (0x2 << 6) | ((point >>> 6) & 0x3f),
+                (0x2 << 6) | (point & 0x3f)
+            );
+            continue;
+        }
 
-                    continue;
-                }
-            } else {
-                buffers.push(0xef, 0xbf, 0xbd);
-                continue;
-            }
+        // 不成对的代理
+        if (point >= 0xd800 && point <= 0xdfff) {
+            buffers.push(0xef, 0xbf, 0xbd);
+            continue;
         }
 
         if (point <= 0x007f) {
-- 
2.43.0


From 5045d6d2286cc027e1c6f720285edcf00ed934ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:47 +0000
Subject: [PATCH 041/150] fix: splitByBytes leaves no hole when the first
 character exceeds the limit

---
 packages/string/src/bytes/splitByBytes.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/string/src/bytes/splitByBytes.ts b/packages/string/src/bytes/splitByBytes.ts
index f90c3fc..1821c5f 100644
--- a/packages/string/src/bytes/splitByBytes.ts
+++ b/packages/string/src/bytes/splitByBytes.ts
@@ -56,7 +56,8 @@ export default function splitByBytes(value: string, highWaterMark = 4096) {
         }
 
         if (tmp + byte > highWaterMark) {
-            idx++;
+            // 当前块中没有内容时，不需要切换到下一个块
+            ret[idx] && idx++;
             push(char);
             tmp = byte;
             continue;
-- 
2.43.0


From 24654189d615de3818ba736349ec78f763709be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 042/150] fix: trim removes special characters given as extras
 as they are

---
 packages/string/src/trim/trimRegSource.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/string/src/trim/trimRegSource.ts b/packages/string/src/trim/trimRegSource.ts
index 2e7672e..9108c7d 100644
--- a/packages/string/src/trim/trimRegSource.ts
+++ b/packages/string/src/trim/trimRegSource.ts
@@ -37,7 +37,11 @@ export const trimRegSource = (
         { is: () => isTrue(control), ret: () => controlRegSource },
         {
             is: () => isStringFilled(extras) || isStringArray(extras),
-            ret: () => `[${[extras].flat().join('')}]`
+            // 转义特殊字符，并且不拆分代理对
+            ret: () =>
+                Array.from([extras].flat().join(''))
+                    .map(char => char.replace(/[\\^$.*+?()[\]{}|]/, '\\$&'))
+                    .join('|') || '[]'
         }
     ];
 
-- 
2.43.0


From 3120cf4f3597142c3125228612e4386ebe289607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:57 +0000
Subject: [PATCH 043/150] fix: bindInside and bindOutside do not count an
 escaped opening mark as nested

---
 packages/string/src/inside/bindInside.ts  | 2 +-
 packages/string/src/inside/bindOutside.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/string/src/inside/bindInside.ts b/packages/string/src/inside/bindInside.ts
index 31e95da..e987e64 100644
--- a/packages/string/src/inside/bindInside.ts
+++ b/packages/string/src/inside/bindInside.ts
@@ -86,7 +86,7 @@ export default function bindInside(
                 continue;
             }
 
-            value[i + 1] === token && i++;
+            [token, headToken].includes(value[i + 1]) && i++;
             continue;
         }
 
diff --git a/packages/string/src/inside/bindOutside.ts b/packages/string/src/inside/bindOutside.ts
index 76d5d59..3685ab6 100644
--- a/packages/string/src/inside/bindOutside.ts
+++ b/packages/string/src/inside/bindOutside.ts
@@ -131,7 +131,7 @@ export default function bindOutside(
                 continue;
             }
 
-            value[i + 1] === token && i++;
+            [token, headToken].includes(value[i + 1]) && i++;
             continue;
         }
 
-- 
2.43.0


From 8bce29c90ca6909ead28e089d6a52c9a47641349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:00 +0000
Subject: [PATCH 044/150] fix: bindInside handles the text that follows a
 nested pair

---
 packages/string/src/inside/bindInside.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/string/src/inside/bindInside.ts b/packages/string/src/inside/bindInside.ts
index e987e64..214d1c3 100644
--- a/packages/string/src/inside/bindInside.ts
+++ b/packages/string/src/inside/bindInside.ts
@@ -103,7 +103,7 @@ export default function bindInside(
         }
 
         // 如果括号或引号已经解析完成
-        if (isToken && --j <= 0) {
+        if (isToken && j-- <= 0) {
             // 如果紧挨着的仍然是括号或引号
             if ((token = marks[value[i + 1] as DefaultMarksType])) {
                 headToken = value[i + 1];
-- 
2.43.0


From de4486aa495f7457829e323aabbc5dea20cd0914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:02 +0000
Subject: [PATCH 045/150] fix: bindInside and bindOutside recognise quotes that
 follow each other

---
 packages/string/src/inside/bindInside.ts  | 3 +++
 packages/string/src/inside/bindOutside.ts | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/packages/string/src/inside/bindInside.ts b/packages/string/src/inside/bindInside.ts
index 214d1c3..90b0aa1 100644
--- a/packages/string/src/inside/bindInside.ts
+++ b/packages/string/src/inside/bindInside.ts
@@ -107,6 +107,9 @@ export default function bindInside(
             // 如果紧挨着的仍然是括号或引号
             if ((token = marks[value[i + 1] as DefaultMarksType])) {
                 headToken = value[i + 1];
+                // 跳过紧挨着的开始字符，以免将引号误认为是结束字符
+                i++;
+                j = 0;
                 continue;
             }
 
diff --git a/packages/string/src/inside/bindOutside.ts b/packages/string/src/inside/bindOutside.ts
index 3685ab6..55b9eca 100644
--- a/packages/string/src/inside/bindOutside.ts
+++ b/packages/string/src/inside/bindOutside.ts
@@ -152,6 +152,9 @@ export default function bindOutside(
             // 如果紧挨着的仍然是括号或引号
             if ((token = marks[value[i + 1] as DefaultMarksType])) {
                 headToken = value[i + 1];
+                // 跳过紧挨着的开始字符，以免将引号误认为是结束字符
+                i++;
+                j = 0;
                 continue;
             }
 
-- 
2.43.0


From f9869073f62e0f9f29f92b498a13b2925c4571f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:04 +0000
Subject: [PATCH 046/150] fix: bindInside and bindOutside close custom marks
 that start and end with the same character

---
 packages/string/src/inside/bindInside.ts  | 2 +-
 packages/string/src/inside/bindOutside.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/string/src/inside/bindInside.ts b/packages/string/src/inside/bindInside.ts
index 90b0aa1..a705d48 100644
--- a/packages/string/src/inside/bindInside.ts
+++ b/packages/string/src/inside/bindInside.ts
@@ -97,7 +97,7 @@ export default function bindInside(
         }
 
         // 如果是嵌套的括号
-        if (!/['"`]/.test(char) && char === headToken) {
+        if (char === headToken && !isToken) {
             j++;
             continue;
         }
diff --git a/packages/string/src/inside/bindOutside.ts b/packages/string/src/inside/bindOutside.ts
index 55b9eca..dbb74ee 100644
--- a/packages/string/src/inside/bindOutside.ts
+++ b/packages/string/src/inside/bindOutside.ts
@@ -142,7 +142,7 @@ export default function bindOutside(
         }
 
         // 如果是嵌套的括号
-        if (!/['"`]/.test(char) && char === headToken) {
+        if (char === headToken && !isToken) {
             j++;
             continue;
         }
-- 
2.43.0


From 657236ce27ee4bb63d49972f7fd1a2f652a307f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:06 +0000
Subject: [PATCH 047/150] fix: behindOf without case sensitivity searches
 behind the position

---
 packages/string/src/find/behindOf.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/packages/string/src/find/behindOf.ts b/packages/string/src/find/behindOf.ts
index 9712747..0ceafea 100644
--- a/packages/string/src/find/behindOf.ts
+++ b/packages/string/src/find/behindOf.ts
@@ -41,8 +41,7 @@ export default function behindOf(
     let fn = (str: string, chunk: string) => str.includes(chunk, pos);
 
     if (isFalse(caseSensitivity)) {
-        const l = str.length;
-        str = str.slice(0, isUint(pos) && pos < l ? pos : l);
+        str = isUint(pos) ? str.slice(pos) : str;
         fn = (str: string, chunk: string) => toRegExp(chunk, 'i').test(str);
     }
 
-- 
2.43.0


From cd93fb2a08a201be54d40c6088ac2f1eb38f669e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 048/150] fix: the HTML entities of special spaces do not stand
 for an ordinary space

---
 packages/string/src/character/constants/htmlEntities.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/string/src/character/constants/htmlEntities.ts b/packages/string/src/character/constants/htmlEntities.ts
index f70d688..983c82d 100644
--- a/packages/string/src/character/constants/htmlEntities.ts
+++ b/packages/string/src/character/constants/htmlEntities.ts
@@ -5,7 +5,7 @@ export default [
     { "value": "'", "name": "apos", "point": "39", "description": "撇号" },
     { "value": "<", "name": "lt", "point": "60", "description": "小于号" },
     { "value": ">", "name": "gt", "point": "62", "description": "大于号" },
-    { "value": " ", "name": "nbsp", "point": "160", "description": "不换行空格" },
+    { "value": "\u00A0", "name": "nbsp", "point": "160", "description": "不换行空格" },
     { "value": "¡", "name": "iexcl", "point": "161", "description": "倒置叹号" },
     { "value": "¢", "name": "cent", "point": "162", "description": "分 (货币符号))" },
     { "value": "£", "name": "pound", "point": "163", "description": "镑 (货币符号)" },
@@ -161,9 +161,9 @@ export default [
     { "value": "ϑ", "name": "thetasym", "point": "977", "description": "希腊字母ϑ，手写体" },
     { "value": "ϒ", "name": "upsih", "point": "978", "description": "希腊字母ϒ，笔画卷曲的字形" },
     { "value": "ϖ", "name": "piv", "point": "982", "description": "希腊字母ϖ，古老的字形" },
-    { "value": " ", "name": "ensp", "point": "8194", "description": "字母n宽度的空间" },
-    { "value": " ", "name": "emsp", "point": "8195", "description": "字母m宽度的空间" },
-    { "value": " ", "name": "thinsp", "point": "8201", "description": "细空间" },
+    { "value": "\u2002", "name": "ensp", "point": "8194", "description": "字母n宽度的空间" },
+    { "value": "\u2003", "name": "emsp", "point": "8195", "description": "字母m宽度的空间" },
+    { "value": "\u2009", "name": "thinsp", "point": "8201", "description": "细空间" },
     { "value": "‌", "name": "zwnj", "point": "8204", "description": "零宽不连字" },
     { "value": "‍", "name": "zwj", "point": "8205", "description": "零宽连字" },
     { "value": "‎", "name": "lrm", "point": "8206", "description": "左到右标志" },
-- 
2.43.0


From 100172aaddc042a9669349cb62e56c03ae9bef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:11 +0000
Subject: [PATCH 049/150] fix: decodeEntity does not decode the result of
 decoding

---
 packages/string/src/character/htmlEntities.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/string/src/character/htmlEntities.ts b/packages/string/src/character/htmlEntities.ts
index d7a2d60..2529e19 100644
--- a/packages/string/src/character/htmlEntities.ts
+++ b/packages/string/src/character/htmlEntities.ts
@@ -26,6 +26,9 @@ const nR = new RegExp(`&(${htmlEntities.map(h => h.name).join('|')});`, 'g');
 /** 验证实体编号的正则表达式 */
 const pR = new RegExp(`&#(${htmlEntities.map(h => h.point).join('|')});`, 'g');
 
+/** 验证实体名称和实体编号的正则表达式 */
+const npR = new RegExp(`${nR.source}|${pR.source}`, 'g');
+
 /** 验证实体字符的正则表达式 */
 const vR = new RegExp(`(${htmlEntities.map(h => h.value).join('|')})`, 'g');
 
@@ -56,7 +59,10 @@ export function decodeEntityByPoint(str: string): string {
  * @returns 返回解码的字符串
  */
 export function decodeEntity(value: string): string {
-    return decodeEntityByName(decodeEntityByPoint(value));
+    // 在一次遍历中处理，以免解码后的 `&` 与后面的内容组成新的实体
+    return value.replace(npR, (_, name, point) =>
+        name ? nameValueMap[name] : pointValueMap[point]
+    );
 }
 
 /**
-- 
2.43.0


From 819679a7d1f335013ee252f761444ee1d6294948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 050/150] fix: subSpaces works with named groups

---
 packages/string/src/spaces/subSpaces.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/string/src/spaces/subSpaces.ts b/packages/string/src/spaces/subSpaces.ts
index 23e3bf3..1d7ce16 100644
--- a/packages/string/src/spaces/subSpaces.ts
+++ b/packages/string/src/spaces/subSpaces.ts
@@ -1,5 +1,5 @@
 import { source } from '@curong/regexp';
-import { isFunction } from '@curong/types';
+import { isFunction, isString } from '@curong/types';
 
 /** 验证所有标点符号和一个空格 */
 const punctuationReg = new RegExp(`${source.punctuation}| `);
@@ -58,8 +58,9 @@ export default function subSpaces(
 
     return value.replace(regexp, (...matches) => {
         const substring = matches[0];
-        const value = matches[matches.length - 1];
-        const index = matches[matches.length - 2];
+        // 如果正则表达式包含命名捕获组，则最后一项是捕获组对象
+        const last = matches.length - 1;
+        const index = matches[isString(matches[last]) ? last - 1 : last - 2];
         const leftChar = value[index - 1];
         const rightChar = value[index + substring.length];
 
-- 
2.43.0


From f0f5d5a39d2a4315fa3dffcc620434cd45dacb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 051/150] fix: matchSplit works with global regular expressions

---
 packages/string/src/match/matchSplit.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/string/src/match/matchSplit.ts b/packages/string/src/match/matchSplit.ts
index e5a117e..21982b3 100644
--- a/packages/string/src/match/matchSplit.ts
+++ b/packages/string/src/match/matchSplit.ts
@@ -28,6 +28,11 @@ export default function matchSplit(str: string, reg: RegExp): string[] {
         return res;
     }
 
+    // 全局匹配的结果中不包含 `index`
+    if (reg.global) {
+        reg = new RegExp(reg.source, reg.flags.replace('g', ''));
+    }
+
     if ((match = str.match(reg)) && isUint(match.index)) {
         res.push(str.slice(0, match.index));
         res.push(match[0]);
-- 
2.43.0


From 940bbd923420b949afb51b9d15f772188a1878de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:23 +0000
Subject: [PATCH 052/150] fix: toRegExp supports a hyphen together with the u
 flag

---
 packages/string/src/regexp/toRegExpSource.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/string/src/regexp/toRegExpSource.ts b/packages/string/src/regexp/toRegExpSource.ts
index f74f909..8a41639 100644
--- a/packages/string/src/regexp/toRegExpSource.ts
+++ b/packages/string/src/regexp/toRegExpSource.ts
@@ -11,5 +11,8 @@
  * ```
  */
 export default function toRegExpSource(str: string): string {
-    return str.replace(/(?=[[\](){}^$.?*+|\\/-])/g, '\\');
+    // 在 `u` 模式的正则中不能使用 `\-`
+    return str
+        .replace(/(?=[[\](){}^$.?*+|\\/])/g, '\\')
+        .replace(/-/g, '\\x2d');
 }
-- 
2.43.0


From 40eb8ad1c3caf91ef6b9d6e5b27e517f9b0256f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:25 +0000
Subject: [PATCH 053/150] fix: toSentences splits at a terminator that also
 ends the text and inserts no space

---
 packages/string/src/sentences/toSentences.ts | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/packages/string/src/sentences/toSentences.ts b/packages/string/src/sentences/toSentences.ts
index 7084339..f53789c 100644
--- a/packages/string/src/sentences/toSentences.ts
+++ b/packages/string/src/sentences/toSentences.ts
@@ -54,9 +54,6 @@ const periodReg = /(?:(?:^| \S+|[\u4e00-\u9fff])[.!?;]+ |[。！？；]+) */gi;
 /** 验证末尾省略号的正则表达式 */
 const ellipsisReg = /[.。]{2,}$/;
 
-/** 验证中文的正则表达式 */
-const zhReg = /[\u4e00-\u9fff]/;
-
 /**
  * 将一个字符串拆分为句子数组
  *
@@ -84,22 +81,20 @@ export default function toSentences(
         value,
         options,
         (value: string, index: number, origin: string) =>
-            value.replace(periodReg, (v, $1) => {
+            value.replace(periodReg, (v, offset: number) => {
                 const w = v.trim();
 
                 if (
                     abbreviationReg.test(w) ||
                     (!ellipsis && ellipsisReg.test(w)) ||
-                    (index === origin.length && origin.endsWith(v))
+                    (index === origin.length &&
+                        offset + v.length === value.length)
                 ) {
                     return v;
                 }
 
-                if (w.length > 1 && !zhReg.test($1)) {
-                    return ` ${w}\n`;
-                }
-
-                return `${w}\n`;
+                // 保留匹配到的开头空格
+                return `${v.startsWith(' ') ? ' ' : ''}${w}\n`;
             })
     ).split('\n');
 }
-- 
2.43.0


From 79ade3aead7d6e6a8b68943cb56febd9fd26e216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:51 +0000
Subject: [PATCH 054/150] fix: corrector converts punctuation between
 consecutive single ideographs

---
 packages/string/src/corrector/plugins/fullStop.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/string/src/corrector/plugins/fullStop.ts b/packages/string/src/corrector/plugins/fullStop.ts
index e28a025..43db9cd 100644
--- a/packages/string/src/corrector/plugins/fullStop.ts
+++ b/packages/string/src/corrector/plugins/fullStop.ts
@@ -1,7 +1,7 @@
 import { symbolGroup as g, symbolMap } from '../constants';
 
 /** 两侧包含中文 */
-const bssReg = new RegExp(`(${g}) *(\\.|:+) *(${g})`, 'g');
+const bssReg = new RegExp(`(${g}) *(\\.|:+) *(?=${g})`, 'g');
 
 /** 左侧包含中文，必须保证标点后有一个空格 */
 const lsReg = new RegExp(`(${g}) *([,;!?~]+)( +|$)`, 'g');
@@ -10,7 +10,7 @@ const lsReg = new RegExp(`(${g}) *([,;!?~]+)( +|$)`, 'g');
 const colonReg = new RegExp(`(${g}): *([()a-zA-Z0-9])`, 'g');
 
 /** 验证中文和中文之间的空格的正则表达式 */
-const bscReg = new RegExp(`(${g}) +(${g})`, 'g');
+const bscReg = new RegExp(`(${g}) +(?=${g})`, 'g');
 
 /** 转换标点 */
 const convert = (symbols: string): string => symbolMap.get(symbols) ?? symbols;
@@ -22,9 +22,9 @@ const convert = (symbols: string): string => symbolMap.get(symbols) ?? symbols;
  * @returns 返回转换好的字符串
  */
 export function convertFullStop(value: string): string {
-    value = value.replace(bscReg, '$1，$2');
+    value = value.replace(bscReg, '$1，');
     value = value.replace(colonReg, '$1：$2');
-    value = value.replace(bssReg, (_, l, s, r) => `${l}${convert(s)}${r}`);
+    value = value.replace(bssReg, (_, l, s) => `${l}${convert(s)}`);
 
     return value.replace(lsReg, (_, v, s) => `${v}${convert(s)}`);
 }
-- 
2.43.0


From d8197c611fe1488ef473715b878b44ab7397f7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:42 +0000
Subject: [PATCH 055/150] fix: corrector without enhancement keeps the line
 breaks

---
 packages/string/src/corrector/basic/general.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/packages/string/src/corrector/basic/general.ts b/packages/string/src/corrector/basic/general.ts
index d37427b..f52c181 100644
--- a/packages/string/src/corrector/basic/general.ts
+++ b/packages/string/src/corrector/basic/general.ts
@@ -8,6 +8,14 @@ import typeset from './typeset';
  * @returns 返回美化好的语句
  */
 export default function general(value: string): string {
+    // 逐行处理，不能删除换行符
+    if (value.includes('\n')) {
+        return value
+            .split(/(\r?\n)/)
+            .map((line, index) => (index % 2 ? line : general(line)))
+            .join('');
+    }
+
     const newValue: string[] = [];
     const lists = typeset(value);
 
-- 
2.43.0


From 754f619818200d271ba2ea72f7b19a6c6b208b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:09 +0000
Subject: [PATCH 056/150] fix: deleteOne deletes broken symbolic links and
 special files

---
 packages/fs/src/deleteOne.ts | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/packages/fs/src/deleteOne.ts b/packages/fs/src/deleteOne.ts
index 8c663aa..f8c6fe3 100644
--- a/packages/fs/src/deleteOne.ts
+++ b/packages/fs/src/deleteOne.ts
@@ -1,10 +1,7 @@
-import { rmdir, unlink } from 'fs/promises';
+import { lstat, rm, unlink } from 'fs/promises';
 
 import { format } from '@curong/term';
 
-import isDir from './isDir';
-import isFile from './isFile';
-
 /**
  * 删除一个文件或一个文件夹
  *
@@ -14,12 +11,13 @@ import isFile from './isFile';
  * - 如果 `pathString` 不是一个有效路径，则会抛出异常
  */
 export default async function deleteOne(pathString: string): Promise<void> {
-    if (await isDir(pathString)) {
-        return await rmdir(pathString, { recursive: true });
-    }
+    // 不跟随符号链接，只删除符号链接本身
+    const stat = await lstat(pathString).catch(() => null);
 
-    if (await isFile(pathString)) {
-        return await unlink(pathString);
+    if (stat) {
+        return stat.isDirectory()
+            ? await rm(pathString, { recursive: true })
+            : await unlink(pathString);
     }
 
     throw format({
-- 
2.43.0


From cfa79c63c8033b07721d8436f3da7fc0f55ffc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:11 +0000
Subject: [PATCH 057/150] fix: copyFile does not delete the source file when
 copying fails

---
 packages/fs/src/copyFile.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/fs/src/copyFile.ts b/packages/fs/src/copyFile.ts
index 0406444..1fd1d40 100644
--- a/packages/fs/src/copyFile.ts
+++ b/packages/fs/src/copyFile.ts
@@ -3,7 +3,6 @@ import { promises } from 'fs';
 import { format } from '@curong/term';
 import { isTrue } from '@curong/types';
 
-import deleteOne from './deleteOne';
 import destPath from './destPath';
 import diffFile from './diffFile';
 import type { CopyFileOptions } from './types';
@@ -49,7 +48,8 @@ export default async function copyFile(
             await promises.copyFile(filePath, destString);
         } catch (error) {
             if (isTrue(options!.forcibly)) {
-                await deleteOne(filePath);
+                // 删除可能已损坏的目标文件，而不是源文件
+                await promises.unlink(destString).catch(() => {});
 
                 return await copyFile(filePath, srcDir, desDir, {
                     forcibly: false
-- 
2.43.0


From 04a96b75bd1ddacd11358bfab5ae56f3ab2ccae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:35 +0000
Subject: [PATCH 058/150] fix: diffFile distinguishes files that differ only in
 trailing zero bytes

---
 packages/fs/src/diffFile.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/fs/src/diffFile.ts b/packages/fs/src/diffFile.ts
index 2cb11f7..19f3ad4 100644
--- a/packages/fs/src/diffFile.ts
+++ b/packages/fs/src/diffFile.ts
@@ -24,7 +24,8 @@ export default async function diffFile(
         const buffer = Buffer.alloc(highWorkMark);
         const readBytes = readSync(fd, buffer, 0, highWorkMark, position);
 
-        return isZero(readBytes) ? null : buffer;
+        // 最后一块的内容可能不足一个缓冲区的大小
+        return isZero(readBytes) ? null : buffer.subarray(0, readBytes);
     };
 
     const fileHandle1 = await open(pathString1, 'r').catch(() => null);
-- 
2.43.0


From ca2b71f5d51559f5534b1679cb276e493de8ef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:37 +0000
Subject: [PATCH 059/150] fix: diffFile closes both files when reading fails

---
 packages/fs/src/diffFile.ts | 40 +++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/packages/fs/src/diffFile.ts b/packages/fs/src/diffFile.ts
index 19f3ad4..57f56fa 100644
--- a/packages/fs/src/diffFile.ts
+++ b/packages/fs/src/diffFile.ts
@@ -44,27 +44,29 @@ export default async function diffFile(
     const fd1 = fileHandle1.fd;
     const fd2 = fileHandle2.fd;
 
-    while (true) {
-        const chunk1 = await readChunk(fd1);
-        const chunk2 = await readChunk(fd2);
-        const nullChunk1 = isNull(chunk1);
-        const nullChunk2 = isNull(chunk2);
-
-        if (nullChunk1 && nullChunk2) {
-            break;
-        }
-
-        if (nullChunk1 || nullChunk2 || !isZero(chunk1!.compare(chunk2!))) {
-            compared = false;
-            break;
+    try {
+        while (true) {
+            const chunk1 = await readChunk(fd1);
+            const chunk2 = await readChunk(fd2);
+            const nullChunk1 = isNull(chunk1);
+            const nullChunk2 = isNull(chunk2);
+
+            if (nullChunk1 && nullChunk2) {
+                break;
+            }
+
+            if (nullChunk1 || nullChunk2 || !isZero(chunk1!.compare(chunk2!))) {
+                compared = false;
+                break;
+            }
+
+            position += highWorkMark;
         }
-
-        position += highWorkMark;
+    } finally {
+        // 关闭文件描述符
+        await fileHandle1.close();
+        await fileHandle2.close();
     }
 
-    // 关闭文件描述符
-    await fileHandle1.close();
-    await fileHandle2.close();
-
     return compared;
 }
-- 
2.43.0


From 77a7599608daa84392c64bf25ecef2a2bfa7d72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:54 +0000
Subject: [PATCH 060/150] fix: mkdir creates directories that can be entered

---
 packages/fs/src/mkdir.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/fs/src/mkdir.ts b/packages/fs/src/mkdir.ts
index 2c4c287..10971b5 100644
--- a/packages/fs/src/mkdir.ts
+++ b/packages/fs/src/mkdir.ts
@@ -10,7 +10,7 @@ import { format } from '@curong/term';
  *
  * 包括:
  * - `recursive` 指示是否应创建父文件夹，默认为 `true`
- * - `mode` 权限，默认为 `0o644`
+ * - `mode` 权限，默认为 `0o755`
  *
  * @throws
  *
@@ -23,7 +23,7 @@ export default async function mkdir(
 ): Promise<string | undefined> {
     options = {
         recursive: true,
-        mode: 0o644,
+        mode: 0o755,
         ...options
     };
 
-- 
2.43.0


From 99bfb8e60a900c78bbce1f700bf42be90625ecc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 061/150] fix: copy and copySymbolicLink reproduce symbolic
 links at every depth

---
 packages/fs/src/copy.ts             | 32 +++++++++++++++++++++--------
 packages/fs/src/copySymbolicLink.ts |  6 +++---
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index 5a004e1..6a3f29c 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -1,13 +1,13 @@
-import { copyFile, lstat, readdir } from 'fs/promises';
-import { dirname, join } from 'path';
+import { copyFile, lstat, readdir, unlink } from 'fs/promises';
+import { dirname, join, resolve } from 'path';
 
 import { format } from '@curong/term';
 
 import copySymbolicLink from './copySymbolicLink';
 import isDir from './isDir';
 import isFile from './isFile';
+import isSymbolicLink from './isSymbolicLink';
 import mkdir from './mkdir';
-import symbolicLink from './symbolicLink';
 import type { CopyFileOptions } from './types';
 
 const _copyFile = async (from: string, to: string, forcibly = false) => {
@@ -32,6 +32,23 @@ const _copyFile = async (from: string, to: string, forcibly = false) => {
     });
 };
 
+const _copyLink = async (from: string, to: string, forcibly = false) => {
+    const toStat = await lstat(to).catch(() => null);
+
+    if (toStat) {
+        // 如果目标已经存在，并且我们不想强制写入，或者目标就是源
+        if (!forcibly || resolve(from) === resolve(to)) {
+            return;
+        }
+
+        if (!toStat.isDirectory()) {
+            await unlink(to);
+        }
+    }
+
+    return await copySymbolicLink(from, to);
+};
+
 /**
  * 将内容从 `fromPath` 拷贝到 `toPath`
  *
@@ -56,11 +73,10 @@ export default async function copy(
 ): Promise<void> {
     const name = 'copy';
     const { forcibly = true } = options ?? {};
-    let link: string | null;
 
     // 如果源是符号链接
-    if ((link = await symbolicLink(fromPath))) {
-        return await copySymbolicLink(link, toPath);
+    if (await isSymbolicLink(fromPath)) {
+        return await _copyLink(fromPath, toPath, forcibly);
     }
 
     // 如果源是文件
@@ -112,8 +128,8 @@ export default async function copy(
         from = join(fromPath, path);
         to = join(toPath, path);
 
-        if ((link = await symbolicLink(fromPath))) {
-            await copySymbolicLink(link, to);
+        if (await isSymbolicLink(from)) {
+            await _copyLink(from, to, forcibly);
         } else if (await isFile(from)) {
             await _copyFile(from, to, forcibly);
         } else if (await isDir(from)) {
diff --git a/packages/fs/src/copySymbolicLink.ts b/packages/fs/src/copySymbolicLink.ts
index d24fa9c..3028c17 100644
--- a/packages/fs/src/copySymbolicLink.ts
+++ b/packages/fs/src/copySymbolicLink.ts
@@ -1,4 +1,4 @@
-import { symlink } from 'fs/promises';
+import { readlink, symlink } from 'fs/promises';
 import { dirname } from 'path';
 
 import { format } from '@curong/term';
@@ -50,8 +50,8 @@ export default async function copySymbolicLink(
         type = null;
     }
 
-    // 创建符号链接
-    await symlink(fromPath, toPath, type).catch(error => {
+    // 创建符号链接，指向原符号链接的目标，而不是原符号链接本身
+    await symlink(await readlink(fromPath), toPath, type).catch(error => {
         throw format({
             name,
             message: '拷贝符号链接失败，无法将fromPath拷贝到toPath',
-- 
2.43.0


From e1fba780608c17af6fc4ee8c1bf9d0b882981949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:55 +0000
Subject: [PATCH 062/150] fix: copy honours forcibly in subdirectories

---
 packages/fs/src/copy.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index 6a3f29c..0f60157 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -133,7 +133,7 @@ export default async function copy(
         } else if (await isFile(from)) {
             await _copyFile(from, to, forcibly);
         } else if (await isDir(from)) {
-            await copy(from, to);
+            await copy(from, to, options);
         } else {
             throw format({
                 name,
-- 
2.43.0


From dfdeeb19800b609b604035311b01e61b2f5c3857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:56 +0000
Subject: [PATCH 063/150] fix: copy rejects a destination inside the source
 directory

---
 packages/fs/src/copy.ts | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index 0f60157..2743dcc 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -1,5 +1,5 @@
 import { copyFile, lstat, readdir, unlink } from 'fs/promises';
-import { dirname, join, resolve } from 'path';
+import { dirname, isAbsolute, join, relative, resolve, sep } from 'path';
 
 import { format } from '@curong/term';
 
@@ -93,6 +93,17 @@ export default async function copy(
         });
     }
 
+    const relativePath = relative(resolve(fromPath), resolve(toPath));
+
+    // 如果目标在源文件夹中，则会无限地拷贝下去
+    if (relativePath && relativePath.split(sep)[0] !== '..' && !isAbsolute(relativePath)) {
+        throw format({
+            name,
+            message: '无法将文件夹拷贝到它自身的子文件夹中',
+            data: { fromPath, toPath }
+        });
+    }
+
     const toPathStat = await lstat(toPath).catch(() => null);
 
     // 如果目标名已经被占用并且目标不是一个文件夹
-- 
2.43.0


From a5886136162be5483fcbf6af1e70f9050c135cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:29 +0000
Subject: [PATCH 064/150] fix: copy reports failing file-system calls instead
 of mistaking the kind of the source

---
 packages/fs/src/copy.ts | 50 +++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index 2743dcc..5d04f90 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -5,14 +5,25 @@ import { format } from '@curong/term';
 
 import copySymbolicLink from './copySymbolicLink';
 import isDir from './isDir';
-import isFile from './isFile';
-import isSymbolicLink from './isSymbolicLink';
 import mkdir from './mkdir';
 import type { CopyFileOptions } from './types';
 
+/** 获取状态，路径不存在时返回 `null`，其他的错误会抛出异常 */
+const lstatOrNull = async (path: string) => {
+    return await lstat(path).catch(error => {
+        if (['ENOENT', 'ENOTDIR'].includes(error.code)) {
+            return null;
+        }
+
+        throw error;
+    });
+};
+
 const _copyFile = async (from: string, to: string, forcibly = false) => {
+    const toStat = await lstatOrNull(to);
+
     // 如果目标文件已经存在，并且我们不想强制写入
-    if ((await isFile(to)) && !forcibly) {
+    if (toStat && !toStat.isDirectory() && !forcibly) {
         return;
     }
 
@@ -33,7 +44,7 @@ const _copyFile = async (from: string, to: string, forcibly = false) => {
 };
 
 const _copyLink = async (from: string, to: string, forcibly = false) => {
-    const toStat = await lstat(to).catch(() => null);
+    const toStat = await lstatOrNull(to);
 
     if (toStat) {
         // 如果目标已经存在，并且我们不想强制写入，或者目标就是源
@@ -74,18 +85,26 @@ export default async function copy(
     const name = 'copy';
     const { forcibly = true } = options ?? {};
 
+    const fromStat = await lstat(fromPath).catch(error => {
+        throw format({
+            name,
+            message: `无法读取fromPath`,
+            data: { fromPath, toPath, error }
+        });
+    });
+
     // 如果源是符号链接
-    if (await isSymbolicLink(fromPath)) {
+    if (fromStat.isSymbolicLink()) {
         return await _copyLink(fromPath, toPath, forcibly);
     }
 
     // 如果源是文件
-    if (await isFile(fromPath)) {
+    if (fromStat.isFile()) {
         return await _copyFile(fromPath, toPath, forcibly);
     }
 
     // 如果源不是一个文件夹
-    if (!(await isDir(fromPath))) {
+    if (!fromStat.isDirectory()) {
         throw format({
             name,
             message: `fromPath不是一个文件或文件夹`,
@@ -104,7 +123,7 @@ export default async function copy(
         });
     }
 
-    const toPathStat = await lstat(toPath).catch(() => null);
+    const toPathStat = await lstatOrNull(toPath);
 
     // 如果目标名已经被占用并且目标不是一个文件夹
     if (toPathStat && !toPathStat.isDirectory()) {
@@ -139,19 +158,6 @@ export default async function copy(
         from = join(fromPath, path);
         to = join(toPath, path);
 
-        if (await isSymbolicLink(from)) {
-            await _copyLink(from, to, forcibly);
-        } else if (await isFile(from)) {
-            await _copyFile(from, to, forcibly);
-        } else if (await isDir(from)) {
-            await copy(from, to, options);
-        } else {
-            throw format({
-                name,
-                message:
-                    '无法将from拷贝到to，from不是一个文件、文件夹或符号链接',
-                data: { fromPath, toPath, from, to }
-            });
-        }
+        await copy(from, to, options);
     }
 }
-- 
2.43.0


From 444706f5deb95fe5d90c2e61a1e1ad270c02b95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:50 +0000
Subject: [PATCH 065/150] fix: readline and readlineFromCode split buffers into
 lines

---
 packages/fs/src/readline.ts         | 5 +++--
 packages/fs/src/readlineFromCode.ts | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/fs/src/readline.ts b/packages/fs/src/readline.ts
index b6bf366..0ab7e83 100644
--- a/packages/fs/src/readline.ts
+++ b/packages/fs/src/readline.ts
@@ -40,8 +40,9 @@ export default function readline(
         }
 
         if (isBuffer(chunk)) {
-            toString = data =>
-                Buffer.from(data).toString(encoding as BufferEncoding);
+            // 先进行解码，因为换行符和字符都有可能占用多个字节
+            chunk = chunk.toString((encoding as BufferEncoding) ?? 'utf8');
+            toString = data => data.join('');
             break;
         }
 
diff --git a/packages/fs/src/readlineFromCode.ts b/packages/fs/src/readlineFromCode.ts
index 684c10a..d8763ad 100644
--- a/packages/fs/src/readlineFromCode.ts
+++ b/packages/fs/src/readlineFromCode.ts
@@ -98,8 +98,9 @@ export default function readlineFromCode(
         }
 
         if (isBuffer(chunk)) {
-            toString = data =>
-                Buffer.from(data).toString(encoding as BufferEncoding);
+            // 先进行解码，因为换行符和字符都有可能占用多个字节
+            chunk = chunk.toString((encoding as BufferEncoding) ?? 'utf8');
+            toString = data => data.join('');
             break;
         }
 
-- 
2.43.0


From 123fc1975842c1d07bcf6d2d136de3a0c6c854fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:22 +0000
Subject: [PATCH 066/150] fix: readlineStream reports read errors, keeps
 delayed CRLF pairs together and returns a list for an empty file

---
 packages/fs/src/readlineStream.ts | 34 +++++++++++++++++--------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/packages/fs/src/readlineStream.ts b/packages/fs/src/readlineStream.ts
index 1f8489c..13785f6 100644
--- a/packages/fs/src/readlineStream.ts
+++ b/packages/fs/src/readlineStream.ts
@@ -41,6 +41,8 @@ export default async function readlineStream(
 
     const ret: string[] = [];
 
+    const hasCallback = isFunctionFilled(callback) || isFunctionFilled(encoding);
+
     if (!isFunctionFilled(callback)) {
         if (isFunctionFilled(encoding)) {
             callback = encoding;
@@ -51,27 +53,29 @@ export default async function readlineStream(
         }
     }
 
-    return new Promise(resolve => {
-        const stream = createInterface({
-            input: createReadStream(pathString, {
-                encoding: encoding as BufferEncoding,
-                flags: 'r+',
-                mode: 0o755,
-                autoClose: true,
-                highWaterMark: 64 * 1024
-            })
+    return new Promise((resolve, reject) => {
+        const input = createReadStream(pathString, {
+            encoding: encoding as BufferEncoding,
+            flags: 'r',
+            autoClose: true,
+            highWaterMark: 64 * 1024
         });
+        const stream = createInterface({ input, crlfDelay: Infinity });
 
-        stream.on('line', callback as ReadlineStreamCallback);
+        const onError = (error: unknown) => {
+            stream.removeAllListeners();
+            stream.close();
+            input.destroy();
+            reject(error);
+        };
 
+        input.once('error', onError);
+        stream.once('error', onError);
+        stream.on('line', callback as ReadlineStreamCallback);
         stream.once('close', () => {
             stream.removeAllListeners();
 
-            if (ret.length > 0) {
-                return resolve(ret);
-            }
-
-            return resolve(true);
+            return resolve(hasCallback ? true : ret);
         });
     });
 }
-- 
2.43.0


From 8528d08ea9e4ccec123225014655ce6472ee0326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:23 +0000
Subject: [PATCH 067/150] fix: readFragment returns the first line

---
 packages/fs/src/readFragment.ts | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/packages/fs/src/readFragment.ts b/packages/fs/src/readFragment.ts
index 37144ff..8b03b19 100644
--- a/packages/fs/src/readFragment.ts
+++ b/packages/fs/src/readFragment.ts
@@ -48,15 +48,10 @@ export default function readFragment(
 
             readStream.on('error', error => reject(error));
 
-            readStream.on('data', chunk => {
-                if (firstLine) {
-                    return chunk;
-                }
-
-                return (data += chunk);
-            });
-
-            readStream.on('end', () => resolve(data));
+            readStream.on('data', chunk => (data += chunk));
+            readStream.on('end', () =>
+                resolve(firstLine ? data.split(/\r\n|\r|\n/)[0] : data)
+            );
         } else {
             return resolve();
         }
-- 
2.43.0


From 0610de3d4411f3edc19dd6e7ce9fe70b9fdca37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:24 +0000
Subject: [PATCH 068/150] fix: readLnk throws on platforms without shortcuts
 instead of returning the message as a path

---
 packages/fs/src/readLnk.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/fs/src/readLnk.ts b/packages/fs/src/readLnk.ts
index 3bd2d50..0b480ae 100644
--- a/packages/fs/src/readLnk.ts
+++ b/packages/fs/src/readLnk.ts
@@ -29,7 +29,7 @@ export default async function readLnk(pathString: string): Promise<string> {
     pathString = normalize(pathString);
 
     if (platform !== 'win32') {
-        return format({
+        throw format({
             name: 'readLnk',
             message: '无法解析不是 ".lnk" 后缀的文件',
             data: { pathString }
-- 
2.43.0


From 39331a9cbc40eaf7354e479a59cbf0612f5fbd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:26 +0000
Subject: [PATCH 069/150] fix: readLnk accepts the output of a successful
 command

---
 packages/fs/src/readLnk.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/fs/src/readLnk.ts b/packages/fs/src/readLnk.ts
index 0b480ae..1e8bdeb 100644
--- a/packages/fs/src/readLnk.ts
+++ b/packages/fs/src/readLnk.ts
@@ -4,7 +4,6 @@ import { platform } from 'process';
 import { promisify } from 'util';
 
 import { format } from '@curong/term';
-import { isNull } from '@curong/types';
 
 /**
  * 拼接适用于 `Windows` 的命令
@@ -41,7 +40,7 @@ export default async function readLnk(pathString: string): Promise<string> {
         encoding: 'utf8'
     });
 
-    if (!isNull(stderr)) {
+    if (stderr) {
         throw format({
             name: 'readLnk',
             message: '"lnk" 文件解析失败',
@@ -49,5 +48,6 @@ export default async function readLnk(pathString: string): Promise<string> {
         });
     }
 
-    return stdout;
+    // 输出的末尾包含换行符
+    return stdout.trim();
 }
-- 
2.43.0


From c198dc5bbb067d5e910db93531f95b65e3f0b36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:28 +0000
Subject: [PATCH 070/150] fix: writeFile creates the directory by default as
 documented

---
 packages/fs/src/writeFile.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/fs/src/writeFile.ts b/packages/fs/src/writeFile.ts
index 65f8685..ec81bc2 100644
--- a/packages/fs/src/writeFile.ts
+++ b/packages/fs/src/writeFile.ts
@@ -35,7 +35,7 @@ export default async function writeFile(
         encoding: 'utf8',
         flag: 'w+',
         mode: 0o755,
-        isMkdir: false,
+        isMkdir: true,
         isFormat: true,
         ...options
     };
-- 
2.43.0


From c1dac5f810f3ffc1b409ee14e020fe38c4e6d372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:53 +0000
Subject: [PATCH 071/150] fix: writeFile serialises empty objects and arrays

---
 packages/fs/src/writeFile.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/fs/src/writeFile.ts b/packages/fs/src/writeFile.ts
index ec81bc2..fba355d 100644
--- a/packages/fs/src/writeFile.ts
+++ b/packages/fs/src/writeFile.ts
@@ -2,7 +2,7 @@ import { promises } from 'fs';
 import { dirname } from 'path';
 
 import { format } from '@curong/term';
-import { isArrayFilled, isObjectFilled } from '@curong/types';
+import { isArray, isObject } from '@curong/types';
 
 import mkdir from './mkdir';
 import type { WriteFileOptions } from './types';
@@ -40,7 +40,7 @@ export default async function writeFile(
         ...options
     };
 
-    if (options.isFormat && (isObjectFilled(data) || isArrayFilled(data))) {
+    if (options.isFormat && (isObject(data) || isArray(data))) {
         try {
             data = JSON.stringify(data);
         } catch (error) {
-- 
2.43.0


From 7f790f099c5401085f2032f2ef47dabfccae8fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:19 +0000
Subject: [PATCH 072/150] fix: windowsPathSource backtracks exponentially on an
 invalid path and rejects names that merely start with a reserved word

---
 packages/path/src/windowsPathSource.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/path/src/windowsPathSource.ts b/packages/path/src/windowsPathSource.ts
index d66ab0a..6b9a5ea 100644
--- a/packages/path/src/windowsPathSource.ts
+++ b/packages/path/src/windowsPathSource.ts
@@ -5,14 +5,14 @@
  *
  * ```typescript
  * const pathWin =
- '(((\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?)|\\.{1,2})(\\\\((?![<>:"/\\\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\\s])*)+)+';
+ '(((\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?)|\\.{1,2})\\\\(?![<>:"/\\\\|?*]|(?:CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(?:\\\\|$))(.*[^.\\s])?';
  * // \\?(?!CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9]|\.| )([^<>:"/\\|?*]))
  *
- * const reg1 = /(((\\\\\?\\)?[a-zA-Z]:\\?)|\.{1,2})(\\((?![<>:"/\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\s])*)+)+/;
+ * const reg1 = /(((\\\\\?\\)?[a-zA-Z]:\\?)|\.{1,2})\\(?![<>:"/\\|?*]|(?:CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(?:\\|$))(.*[^.\s])?/;
  * ```
  * @link [docs.microsoft](https://docs.microsoft.com/zh-cn/windows/win32/fileio/naming-a-file?redirectedfrom=MSDN)
  */
 const windowsPathSource =
-    '(((\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?)|\\.{1,2})(\\\\((?![<>:"/\\\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\\s])*)+)+';
+    '(((\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?)|\\.{1,2})\\\\(?![<>:"/\\\\|?*]|(?:CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(?:\\\\|$))(.*[^.\\s])?';
 
 export default windowsPathSource;
-- 
2.43.0


From e37c63f18c898da9a0ce12e47c357a2833c0dd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:21 +0000
Subject: [PATCH 073/150] fix: isWindowsExtendedLengthPath rejects
 extended-length paths longer than 260 characters

---
 packages/path/src/isWindowsExtendedLengthPath.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/path/src/isWindowsExtendedLengthPath.ts b/packages/path/src/isWindowsExtendedLengthPath.ts
index b9c19df..0d4276d 100644
--- a/packages/path/src/isWindowsExtendedLengthPath.ts
+++ b/packages/path/src/isWindowsExtendedLengthPath.ts
@@ -10,5 +10,5 @@ import isWindowsPath from './isWindowsPath';
 export default function isWindowsExtendedLengthPath(
     pathString: string
 ): boolean {
-    return isWindowsPath(pathString) && pathString.startsWith('\\\\?\\');
+    return pathString.startsWith('\\\\?\\') && isWindowsPath(pathString, true);
 }
-- 
2.43.0


From dde2e70648472b618a1d88b5eb992b514d504347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:22 +0000
Subject: [PATCH 074/150] fix: normalize resolves '..' against '~' before
 expanding it and expands $ patterns in the home directory

---
 packages/path/src/normalize.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/path/src/normalize.ts b/packages/path/src/normalize.ts
index 1db41fa..d6a181e 100644
--- a/packages/path/src/normalize.ts
+++ b/packages/path/src/normalize.ts
@@ -17,5 +17,7 @@ const homeDirectory = homedir();
  * @throw 如果 pathString 不是有效的路径字符串，则会抛出异常
  */
 export default function normalize(pathString: string): string {
-    return _normalize(pathString).replace(/^~(?=$|\/|\\)/, homeDirectory);
+    return _normalize(
+        pathString.replace(/^~(?=$|\/|\\)/, () => homeDirectory)
+    );
 }
-- 
2.43.0


From 403901d2503c048fa29b2e15b01f1d7380533e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:10 +0000
Subject: [PATCH 075/150] fix: execAll never ends on an empty match and keeps
 the state of an aborted call

---
 packages/regexp/src/execAll.ts | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/packages/regexp/src/execAll.ts b/packages/regexp/src/execAll.ts
index 50525e8..6961b50 100644
--- a/packages/regexp/src/execAll.ts
+++ b/packages/regexp/src/execAll.ts
@@ -181,10 +181,28 @@ export default function execAll(
         keyOrCallback = (match: RegExpExecOrigin) => match;
     } while (false);
 
+    // 与 `String.matchAll` 一样，使用副本来匹配，这样不会修改传入的正则表达式的状态
+    const regexp = new RegExp(reg);
+    regexp.lastIndex = reg.lastIndex;
+
     do {
-        match = reg.exec(str) as RegExpExecOrigin;
-        match && res.push(keyOrCallback(match));
-    } while (reg.global && match);
+        match = regexp.exec(str) as RegExpExecOrigin;
+
+        if (!match) {
+            break;
+        }
+
+        // 匹配到空字符串时需要手动前进，否则会无限循环
+        if (regexp.global && match[0] === '') {
+            const code = /[uv]/.test(regexp.flags)
+                ? str.codePointAt(regexp.lastIndex)
+                : void 0;
+
+            regexp.lastIndex += code && code > 0xffff ? 2 : 1;
+        }
+
+        res.push(keyOrCallback(match));
+    } while (regexp.global);
 
     return res;
 }
-- 
2.43.0


From ff5bb135ebfbe08e8457002e0e3a0d473ef620a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:12 +0000
Subject: [PATCH 076/150] fix: testEvery and testSome give different answers on
 repeated calls with global expressions

---
 packages/regexp/src/testEvery.ts | 2 +-
 packages/regexp/src/testSome.ts  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/regexp/src/testEvery.ts b/packages/regexp/src/testEvery.ts
index 5fd75bd..5a0f360 100644
--- a/packages/regexp/src/testEvery.ts
+++ b/packages/regexp/src/testEvery.ts
@@ -32,7 +32,7 @@ export default function testEvery(
     }
 
     for (let i = 0, len = regexps.length; i < len; i++) {
-        if (!regexps[i].test(str)) {
+        if (str.search(regexps[i]) === -1) {
             return false;
         }
     }
diff --git a/packages/regexp/src/testSome.ts b/packages/regexp/src/testSome.ts
index e8430be..37677cb 100644
--- a/packages/regexp/src/testSome.ts
+++ b/packages/regexp/src/testSome.ts
@@ -29,7 +29,7 @@ export default function testSome(regexps: RegExp[], str: string): boolean {
     }
 
     for (let i = 0, len = regexps.length; i < len; i++) {
-        if (regexps[i].test(str)) {
+        if (str.search(regexps[i]) !== -1) {
             return true;
         }
     }
-- 
2.43.0


From 904c699c152d628c8f26276e99d7f0f4085537d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:08 +0000
Subject: [PATCH 077/150] fix: isIp accepts anything before a bracketed address
 and anything after a plain one

---
 packages/regexp/src/isIp.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/regexp/src/isIp.ts b/packages/regexp/src/isIp.ts
index bb54e3f..bc3e4f4 100644
--- a/packages/regexp/src/isIp.ts
+++ b/packages/regexp/src/isIp.ts
@@ -1,6 +1,6 @@
 /** 验证 `IP` 地址的正则表达式 */
 const ipReg =
-    /^(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))|\[(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))](?::(?:6553[0-5]|655[0-2][0-9]|65[0-4][0-9]{2}|6[0-4][0-9]{3}|[1-5][0-9]{4}|[1-9][0-9]{1,3}|[0-9]))?$/i;
+    /^(?:(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))|\[(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))](?::(?:6553[0-5]|655[0-2][0-9]|65[0-4][0-9]{2}|6[0-4][0-9]{3}|[1-5][0-9]{4}|[1-9][0-9]{1,3}|[0-9]))?)$/i;
 
 /**
  * 是不是一个 `IP` 地址
-- 
2.43.0


From eafd85b849b3990bdcea1e0729c51bb8ae8602bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:28 +0000
Subject: [PATCH 078/150] fix: isEmail measures the parts around the first @
 although a quoted user name may contain one

---
 packages/regexp/src/isEmail.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/regexp/src/isEmail.ts b/packages/regexp/src/isEmail.ts
index e4b6e60..c153be3 100644
--- a/packages/regexp/src/isEmail.ts
+++ b/packages/regexp/src/isEmail.ts
@@ -19,7 +19,8 @@ export default function isEmail(email: string): boolean {
         return false;
     }
 
-    const [username, domains] = email.split('@');
+    // 带引号的用户名中可能包含 `@`，而域名中不会包含
+    const index = email.lastIndexOf('@');
 
-    return username.length <= 64 && domains.length <= 255;
+    return index <= 64 && email.length - index - 1 <= 255;
 }
-- 
2.43.0


From 62a00f04a5b8619ad05778a1ecea20d0fe3060bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:30 +0000
Subject: [PATCH 079/150] fix: isURI throws on a malformed escape sequence

---
 packages/regexp/src/isURI.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/regexp/src/isURI.ts b/packages/regexp/src/isURI.ts
index 1bfd833..6ed978a 100644
--- a/packages/regexp/src/isURI.ts
+++ b/packages/regexp/src/isURI.ts
@@ -45,5 +45,14 @@ import { uri as sourceURI } from './source';
 export default function isURI(uri: string): boolean {
     const reg = new RegExp(`^${sourceURI}$`);
 
-    return reg.test(uri) && encodeURI(decodeURI(uri)).length <= 2e3;
+    if (!reg.test(uri)) {
+        return false;
+    }
+
+    try {
+        return encodeURI(decodeURI(uri)).length <= 2e3;
+    } catch {
+        // 错误的转义序列
+        return false;
+    }
 }
-- 
2.43.0


From 2bc60ae14456afd2036ab4534752cc2f2d5e2ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:02 +0000
Subject: [PATCH 080/150] fix: isIp accepts an IPv4 address after a single
 colon

---
 packages/regexp/src/isIp.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/regexp/src/isIp.ts b/packages/regexp/src/isIp.ts
index bc3e4f4..7758309 100644
--- a/packages/regexp/src/isIp.ts
+++ b/packages/regexp/src/isIp.ts
@@ -1,6 +1,6 @@
 /** 验证 `IP` 地址的正则表达式 */
 const ipReg =
-    /^(?:(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))|\[(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))](?::(?:6553[0-5]|655[0-2][0-9]|65[0-4][0-9]{2}|6[0-4][0-9]{3}|[1-5][0-9]{4}|[1-9][0-9]{1,3}|[0-9]))?)$/i;
+    /^(?:(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){1,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))|\[(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){1,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))](?::(?:6553[0-5]|655[0-2][0-9]|65[0-4][0-9]{2}|6[0-4][0-9]{3}|[1-5][0-9]{4}|[1-9][0-9]{1,3}|[0-9]))?)$/i;
 
 /**
  * 是不是一个 `IP` 地址
-- 
2.43.0


From a7d8c19dcc229528c64e1f70f89170b875551bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:27 +0000
Subject: [PATCH 081/150] fix: spawn leaves brackets, braces, ! and = unquoted
 for the shell

---
 packages/process/src/spawn.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/process/src/spawn.ts b/packages/process/src/spawn.ts
index cd9b070..e756f5c 100644
--- a/packages/process/src/spawn.ts
+++ b/packages/process/src/spawn.ts
@@ -58,7 +58,7 @@ const escapeSh = (input: string): string => {
         return `''`;
     }
 
-    if (!/[\r\n\t '"`#$&~*;?|()<>\\]/.test(input)) {
+    if (!/[\r\n\t '"`#$&~*;?|()<>\\[\]{}!^=]/.test(input)) {
         return input;
     }
 
-- 
2.43.0


From 7f345bd7c212ae626c22e96c7ad924b7c969409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:29 +0000
Subject: [PATCH 082/150] fix: spawn crashes the process when the child cannot
 be created and sets stdin too late

---
 packages/process/src/spawn.ts | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/packages/process/src/spawn.ts b/packages/process/src/spawn.ts
index e756f5c..5422d07 100644
--- a/packages/process/src/spawn.ts
+++ b/packages/process/src/spawn.ts
@@ -210,7 +210,7 @@ export default function spawn(
         args = shellArgs;
     }
 
-    let handler: ChildProcess;
+    let handler: ChildProcess | undefined;
 
     const child = new Promise((res, rej) => {
         handler = _spawn(cmd, args, opts);
@@ -255,10 +255,9 @@ export default function spawn(
         handler.on('error', reject);
     }) as SpawnResult;
 
-    setTimeout(() => {
-        child.stdin = handler!.stdin;
-        child.process = handler!;
-    });
+    // 如果 `spawn` 方法抛出了异常，则没有子进程
+    child.stdin = handler?.stdin ?? null;
+    child.process = handler ?? null;
 
     return child;
 }
-- 
2.43.0


From 55dc922ed6b52cf3298e48d476e1151f5e24667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:12 +0000
Subject: [PATCH 083/150] fix: kill sends the signal twice to every descendant

---
 packages/os/src/kill.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/os/src/kill.ts b/packages/os/src/kill.ts
index 1a10c16..540988f 100644
--- a/packages/os/src/kill.ts
+++ b/packages/os/src/kill.ts
@@ -23,11 +23,13 @@ const killAll = (
     signal?: string | number,
     callback?: (error?: any) => void
 ) => {
-    const killed = new Set();
+    const killed = new Set<number>();
 
     try {
-        Object.keys(tree).forEach(pid => {
-            tree[+pid].forEach(p => {
+        Object.keys(tree).forEach(key => {
+            const pid = +key;
+
+            tree[pid].forEach(p => {
                 if (!killed.has(p)) {
                     killPid(p, signal);
                     killed.add(p);
@@ -35,7 +37,7 @@ const killAll = (
             });
 
             if (!killed.has(pid)) {
-                killPid(+pid, signal);
+                killPid(pid, signal);
                 killed.add(pid);
             }
         });
-- 
2.43.0


From bc98de39abc3c81e31ea6c0745c4fbb2170b337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:13 +0000
Subject: [PATCH 084/150] fix: kill never reports, or reports twice, when a
 listing is empty or names a process again

---
 packages/os/src/kill.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/packages/os/src/kill.ts b/packages/os/src/kill.ts
index 540988f..817951d 100644
--- a/packages/os/src/kill.ts
+++ b/packages/os/src/kill.ts
@@ -62,7 +62,7 @@ const buildProcessTree = (
     cb: (error?: any) => void
 ) => {
     const ps = spawnChildProcessesList(`${parentPid}`);
-    let allData: string;
+    let allData = '';
 
     ps.stdout.on('data', data => {
         allData += data.toString('ascii');
@@ -81,6 +81,12 @@ const buildProcessTree = (
 
         (allData.match(/\d+/g) ?? []).forEach(pid => {
             const p = +pid;
+
+            // 在查询期间，进程可能会被移动到其他的父进程下
+            if (tree[p]) {
+                return;
+            }
+
             tree[parentPid].push(p);
             tree[p] = [];
             pidsToProcess.add(p);
@@ -92,6 +98,10 @@ const buildProcessTree = (
                 cb
             );
         });
+
+        if (pidsToProcess.size < 1) {
+            cb();
+        }
     });
 };
 
-- 
2.43.0


From 9db9ac10a73d8dea5fc82a4953605570cd60aad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:15 +0000
Subject: [PATCH 085/150] fix: kill crashes the process when the listing
 command cannot be started

---
 packages/os/src/kill.ts | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/packages/os/src/kill.ts b/packages/os/src/kill.ts
index 817951d..3adf3c5 100644
--- a/packages/os/src/kill.ts
+++ b/packages/os/src/kill.ts
@@ -68,6 +68,8 @@ const buildProcessTree = (
         allData += data.toString('ascii');
     });
 
+    ps.on('error', cb);
+
     ps.on('close', code => {
         pidsToProcess.delete(parentPid);
 
@@ -144,6 +146,25 @@ function kill(
     tree[pid] = [];
     pidsToProcess.add(pid);
 
+    let isFinished = false;
+    const finish = (error?: any) => {
+        if (isFinished) {
+            return;
+        }
+
+        isFinished = true;
+
+        if (!error) {
+            return killAll(tree, signal as any, callback);
+        }
+
+        if (callback) {
+            return callback(error);
+        }
+
+        throw error;
+    };
+
     switch (platform) {
         case 'win32':
             exec(`taskkill /T /F /PID ${pid}`, callback);
@@ -155,7 +176,7 @@ function kill(
                 tree,
                 pidsToProcess,
                 pid => spawn('pgrep', ['-P', pid]),
-                () => killAll(tree, signal as any, callback)
+                finish
             );
             break;
 
@@ -173,7 +194,7 @@ function kill(
                         pid
                     ]);
                 },
-                () => killAll(tree, signal as any, callback)
+                finish
             );
             break;
 
-- 
2.43.0


From ee5ade3e95393cecd4caf2a701626410ef81c251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:16 +0000
Subject: [PATCH 086/150] fix: kill takes an empty string for process 0, the
 whole process group

---
 packages/os/src/kill.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/os/src/kill.ts b/packages/os/src/kill.ts
index 3adf3c5..0ba40db 100644
--- a/packages/os/src/kill.ts
+++ b/packages/os/src/kill.ts
@@ -131,7 +131,8 @@ function kill(
         signal = undefined;
     }
 
-    if (!isUintSafe((pid = +pid))) {
+    // `0` 代表的是当前的进程组，而不是某个进程
+    if (!isUintSafe((pid = +pid)) || pid === 0) {
         const e = new Error(`[kill] pid 必须是一个数字: ${pid}`);
 
         if (callback) {
-- 
2.43.0


From 0694c3d3cf699bc55d03abbe42671246036b6734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:18 +0000
Subject: [PATCH 087/150] fix: killWindowsTask reports failure as success and
 success as failure

---
 packages/os/src/windows/killTask.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/os/src/windows/killTask.ts b/packages/os/src/windows/killTask.ts
index 668785b..291dd88 100644
--- a/packages/os/src/windows/killTask.ts
+++ b/packages/os/src/windows/killTask.ts
@@ -19,5 +19,5 @@ export default async function killWindowsTask(
     const command = ['taskkill', '/F', '/T', '/IM', `"${imageName}"`];
     const executed = await exec(command).catch(() => ({ stderr: 'error' }));
 
-    return executed.stderr.length > 0;
+    return executed.stderr.length === 0;
 }
-- 
2.43.0


From cb99b8985ad7c9c4094bdc0b114f3aaf6dfbf3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:20 +0000
Subject: [PATCH 088/150] fix: windowsMakeShortcut returns the error instead of
 throwing it

---
 packages/os/src/windows/makeShortcut.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/os/src/windows/makeShortcut.ts b/packages/os/src/windows/makeShortcut.ts
index 01492fc..f6d8a3e 100644
--- a/packages/os/src/windows/makeShortcut.ts
+++ b/packages/os/src/windows/makeShortcut.ts
@@ -85,7 +85,7 @@ export default async function windowsMakeShortcut(
     options?: ShortcutOptions
 ) {
     if (!isWindows) {
-        return new Error(
+        throw new Error(
             '[windowsMakeShortcut]: 当前不是 Windows 系统，无法执行操作'
         );
     }
-- 
2.43.0


From 12a793a15cf8b0373113d3b2315107fd889f893a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:07 +0000
Subject: [PATCH 089/150] fix: copy keeps the elements of typed arrays

---
 packages/util/src/copy.ts | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index 297b447..809e784 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -107,6 +107,15 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
             return reg;
         }
 
+        case 'Int8Array':
+        case 'Uint8Array':
+        case 'Uint8ClampedArray':
+        case 'Int16Array':
+        case 'Uint16Array':
+        case 'Int32Array':
+        case 'Uint32Array':
+        case 'Float32Array':
+        case 'Float64Array':
         case 'BigInt64Array':
         case 'BigUint64Array':
             return new value.constructor(value);
@@ -147,15 +156,6 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
 
         case 'ArrayBuffer':
         case 'SharedArrayBuffer':
-        case 'Int8Array':
-        case 'Uint8Array':
-        case 'Uint8ClampedArray':
-        case 'Int16Array':
-        case 'Uint16Array':
-        case 'Int32Array':
-        case 'Uint32Array':
-        case 'Float32Array':
-        case 'Float64Array':
             return copyArrayBuffer(value);
 
         case 'Arguments':
-- 
2.43.0


From 313ef47977bff0f6960ee4d383c698271cdd75b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:00 +0000
Subject: [PATCH 090/150] fix: copy keeps sharing and cycles through every kind
 of object

---
 packages/util/src/copy.ts | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index 809e784..d136b9a 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -56,11 +56,11 @@ const copyAttrs = <T extends object>(
             let set;
 
             if (isFunction(descriptor.get)) {
-                get = copyFunction(descriptor.get, hash);
+                get = recursiveCopy(descriptor.get, hash);
             }
 
             if (isFunction(descriptor.set)) {
-                set = copyFunction(descriptor.set, hash);
+                set = recursiveCopy(descriptor.set, hash);
             }
 
             Object.defineProperty(memo, key, {
@@ -231,7 +231,10 @@ const copyFunction = (value: any, weak: any) => {
         source = `return ${src};`;
     }
 
-    return copyAttrs(value, new Function(source!)(), weak);
+    const fn = new Function(source!)();
+    weak.set(value, fn);
+
+    return copyAttrs(value, fn, weak);
 };
 
 function recursiveCopy<T extends object>(
@@ -247,6 +250,11 @@ function recursiveCopy<T extends object>(
         return value;
     }
 
+    // 已经拷贝过的值，直接返回它的副本
+    if (weak.has(value)) {
+        return weak.get(value);
+    }
+
     // 是不是函数
     // 拷贝同步函数，异步函数，箭头函数，`Generator` 函数，但是不能拷贝 `Promise`。
     if (isFunction(value)) {
@@ -255,14 +263,16 @@ function recursiveCopy<T extends object>(
 
     // 是不是 `Buffer`
     if (isBuffer(value)) {
-        return copyAttrs(value, Buffer.from(value), weak);
-    }
+        const buffer: any = Buffer.from(value);
+        weak.set(value as any, buffer);
 
-    if (weak.has(value)) {
-        return weak.get(value);
+        return copyAttrs(value, buffer, weak);
     }
 
-    return copyAttrs(value, copyByTag(value, weak), weak);
+    const instance = copyByTag(value, weak);
+    weak.set(value, instance);
+
+    return copyAttrs(value, instance, weak);
 }
 
 /**
-- 
2.43.0


From 7ca2deb0789102406f7d79e06a9108af7f26e075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:04 +0000
Subject: [PATCH 091/150] fix: copy copies the entries of Map and Set deeply

---
 packages/util/src/copy.ts | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index d136b9a..5f7d227 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -77,6 +77,11 @@ const copyAttrs = <T extends object>(
     }, dest);
 };
 
+/** 拷贝 `Map` 和 `Set` 中的数据。基本类型的值（包括 `symbol`）作为键时必须保持不变 */
+const copyEntry = (value: any, weak: WeakMap<any, any>) => {
+    return isPrimitive(value) ? value : recursiveCopy(value, weak);
+};
+
 /** 根据 `toStringTag` 拷贝类型 */
 const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
     const typeTag = getTag(value);
@@ -145,12 +150,28 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
         // `String` 为 `string` 的包装的形式
         case 'Date':
         case 'FileReader':
-        case 'Set':
-        case 'Map':
         case 'URL':
         case 'URLSearchParams':
             return copyBaseType(value);
 
+        case 'Set': {
+            const set = new value.constructor();
+            weak.set(value, set);
+            Set.prototype.forEach.call(value, v => {
+                set.add(copyEntry(v, weak));
+            });
+            return set;
+        }
+
+        case 'Map': {
+            const map = new value.constructor();
+            weak.set(value, map);
+            Map.prototype.forEach.call(value, (v, k) => {
+                map.set(copyEntry(k, weak), copyEntry(v, weak));
+            });
+            return map;
+        }
+
         case 'Generator':
             return copyGenerator(value);
 
-- 
2.43.0


From 899851e474d8302eb2e54016891e1fdd2df33461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:54 +0000
Subject: [PATCH 092/150] fix: copy keeps sharing and cycles inside
 AggregateError

---
 packages/util/src/copy.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index 5f7d227..92f8eed 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -205,10 +205,18 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
         case 'URIError': {
             const ins =
                 value instanceof AggregateError
-                    ? new AggregateError(value.errors.map(copy), value.message)
+                    ? new AggregateError([])
                     : new (Object.getPrototypeOf(value).constructor)();
 
             weak.set(value, ins);
+
+            if (value instanceof AggregateError) {
+                (ins as AggregateError).errors = recursiveCopy(
+                    value.errors,
+                    weak
+                );
+            }
+
             const o = copyAttrs(value, ins, weak);
             o.stack = value.stack; // 堆栈也要一样
             return o;
-- 
2.43.0


From 36425fc6f76a7285941ab061a56b3f1822a53f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:58 +0000
Subject: [PATCH 093/150] fix: copy keeps the length of arrays that end with
 holes

---
 packages/util/src/copy.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index 92f8eed..b8a6a4e 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -1,6 +1,7 @@
 import {
     getTag,
     hasOwnProperty,
+    isArray,
     isBigIntPrimitive,
     isBuffer,
     isFunction,
@@ -192,6 +193,10 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
                 ? Object.create(null)
                 : new proto.constructor();
             weak.set(value, instance);
+            // 数组末尾的空位也要保留
+            if (isArray(value)) {
+                instance.length = value.length;
+            }
             return copyAttrs(value, instance, weak);
         }
 
-- 
2.43.0


From c6d414e381f1c2b60e863fc5895e6ad596c949bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:29 +0000
Subject: [PATCH 094/150] fix: copy keeps the message and name of DOMException

---
 packages/util/src/copy.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index b8a6a4e..51803e9 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -200,7 +200,12 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
             return copyAttrs(value, instance, weak);
         }
 
-        case 'DOMException':
+        case 'DOMException': {
+            const exception = new DOMException(value.message, value.name);
+            exception.stack = value.stack;
+            return exception;
+        }
+
         case 'Error':
         case 'EvalError':
         case 'RangeError':
-- 
2.43.0


From d477d58fc6ca0643e0d449f9607dfa4a86c2809b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:47 +0000
Subject: [PATCH 095/150] fix: copy accepts method definitions and accessors
 with any name

---
 packages/util/src/copy.ts | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index 51803e9..0e94490 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -239,15 +239,19 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
     }
 };
 
-const getDescriptorSource = (src: string, name: string, flag: string) => `
-  const o = { ${src} }; return Object.getOwnPropertyDescriptor(o, '${name}').${flag};
-`;
+/** 判断一段源代码是不是一个可以独立使用的函数表达式 */
+const isExpression = (src: string) => {
+    try {
+        new Function(`return (${src});`);
+        return true;
+    } catch {
+        return false;
+    }
+};
 
 const copyFunction = (value: any, weak: any) => {
     const { name } = value;
     const src = value.toString();
-    let source: string;
-    let m: any;
 
     // 如果是 `ECMAScript` 原生函数
     if (
@@ -259,18 +263,15 @@ const copyFunction = (value: any, weak: any) => {
         return value;
     }
 
-    // 区分 `getter`、`setter`、箭头函数和普通函数，生成不同的函数源代码
-    if ((m = /^(get|set) (\S+)$/.exec(name))) {
-        const [, flag, name] = m;
-        source = getDescriptorSource(src, name, flag);
-    } else if (/^(:?async ?\* ?)?\[/.test(src)) {
-        // 处理类似于 `[Symbol.iterator]() {}` || `async *[Symbol.asyncIterator]() {}` 的情况
-        source = `const __$$INNER$$__ = { ${src} }; return __$$INNER$$__${name};`;
-    } else {
-        source = `return ${src};`;
-    }
+    // 区分方法（包括 `getter`、`setter`、`[Symbol.iterator]() {}`）和函数表达式，生成不同的函数源代码
+    const source = isExpression(src)
+        ? `return (${src});`
+        : `return (o => {
+               const d = Object.getOwnPropertyDescriptor(o, Reflect.ownKeys(o)[0]);
+               return d.get ?? d.set ?? d.value;
+           })({ ${src} });`;
 
-    const fn = new Function(source!)();
+    const fn = new Function(source)();
     weak.set(value, fn);
 
     return copyAttrs(value, fn, weak);
-- 
2.43.0


From 22635c1ac7d0a08ab20a11bdba2cf48559d3b6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:21 +0000
Subject: [PATCH 096/150] fix: lackAttrs finds properties given by a numeric
 key

---
 packages/util/src/lackAttrs.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/util/src/lackAttrs.ts b/packages/util/src/lackAttrs.ts
index bde5ada..df4beab 100644
--- a/packages/util/src/lackAttrs.ts
+++ b/packages/util/src/lackAttrs.ts
@@ -30,5 +30,8 @@ export default function lackAttrs(
 
     const attrSet = new Set(allAttrs(value));
 
-    return attributes.filter(v => !attrSet.has(v));
+    // 自身属性的键不会是数字，所以要先将数字转换为字符串
+    return attributes.filter(
+        v => !attrSet.has(typeof v === 'number' ? `${v}` : v)
+    );
 }
-- 
2.43.0


From ac82349249bd893cd083f857640fe80c2e9f31ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 097/150] fix: isDateValid answers false for values that cannot
 be converted

---
 packages/types/src/date/isDateValid.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/types/src/date/isDateValid.ts b/packages/types/src/date/isDateValid.ts
index 6eef625..4571bc4 100644
--- a/packages/types/src/date/isDateValid.ts
+++ b/packages/types/src/date/isDateValid.ts
@@ -17,5 +17,10 @@ import isUndefined from '../nullable/isUndefined';
 export default function isDateValid<T = number | string | unknown[] | Date>(
     value: unknown
 ): value is T {
-    return !isUndefined(value) && !isNaN(new Date(value as any).valueOf());
+    try {
+        return !isUndefined(value) && !isNaN(new Date(value as any).valueOf());
+    } catch {}
+
+    // `Symbol`、`BigInt` 等不能转换为日期的值
+    return false;
 }
-- 
2.43.0


From 9681dcbab76aebd266561983685d17e32e426e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 098/150] fix: isNumberValid answers false for values that
 cannot be converted

---
 packages/types/src/number/isNumberValid.ts | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/packages/types/src/number/isNumberValid.ts b/packages/types/src/number/isNumberValid.ts
index 3d404e3..0064868 100644
--- a/packages/types/src/number/isNumberValid.ts
+++ b/packages/types/src/number/isNumberValid.ts
@@ -88,12 +88,18 @@ export default function isNumberValid(
         allowEmptyString = false
     } = options;
 
-    return (
-        (implicit
-            ? !isUndefined(value)
-            : isNumber(value, allowNaN) ||
-              (isString(value) && (allowEmptyString || value.trim() !== ''))) &&
-        (allowNaN || !isNaN(Number(value).valueOf())) &&
-        (allowInfinity || !isInfinity(Number(value).valueOf()))
-    );
+    try {
+        return (
+            (implicit
+                ? !isUndefined(value)
+                : isNumber(value, allowNaN) ||
+                  (isString(value) &&
+                      (allowEmptyString || value.trim() !== ''))) &&
+            (allowNaN || !isNaN(Number(value).valueOf())) &&
+            (allowInfinity || !isInfinity(Number(value).valueOf()))
+        );
+    } catch {}
+
+    // `Symbol` 等不能转换为数字的值
+    return false;
 }
-- 
2.43.0


From 6dc3bcb51a9fb2149c9a613d4a967753d6bdaf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 099/150] fix: error predicates accept DOMException and errors
 without a prototype

---
 packages/types/src/error/constants/prototypeName.ts | 13 +++++++++++++
 packages/types/src/error/isAggregateError.ts        |  3 ++-
 packages/types/src/error/isError.ts                 |  3 ++-
 packages/types/src/error/isEvalError.ts             |  3 ++-
 packages/types/src/error/isRangeError.ts            |  3 ++-
 packages/types/src/error/isReferenceError.ts        |  3 ++-
 packages/types/src/error/isSyntaxError.ts           |  3 ++-
 packages/types/src/error/isTypeError.ts             |  3 ++-
 packages/types/src/error/isURIError.ts              |  3 ++-
 9 files changed, 29 insertions(+), 8 deletions(-)
 create mode 100644 packages/types/src/error/constants/prototypeName.ts

diff --git a/packages/types/src/error/constants/prototypeName.ts b/packages/types/src/error/constants/prototypeName.ts
new file mode 100644
index 0000000..21e66f5
--- /dev/null
+++ b/packages/types/src/error/constants/prototypeName.ts
@@ -0,0 +1,13 @@
+/**
+ * 获取一个值的原型上的 `name` 属性
+ *
+ * @param value 要获取的值
+ * @returns 如果没有原型，或者原型上的 `name` 属性无法读取 (比如 `DOMException`)，则返回 `undefined`
+ */
+export default function prototypeName(value: unknown): unknown {
+    try {
+        return Object.getPrototypeOf(value).name;
+    } catch {}
+
+    return undefined;
+}
diff --git a/packages/types/src/error/isAggregateError.ts b/packages/types/src/error/isAggregateError.ts
index bd94887..7d9db60 100644
--- a/packages/types/src/error/isAggregateError.ts
+++ b/packages/types/src/error/isAggregateError.ts
@@ -1,4 +1,5 @@
 import isAnyError from './isAnyError';
+import prototypeName from './constants/prototypeName';
 
 /**
  * 是不是一个 `AggregateError` 对象
@@ -13,6 +14,6 @@ import isAnyError from './isAnyError';
 export default function isAggregateError(value: unknown): value is EvalError {
     return (
         isAnyError(value) &&
-        Object.getPrototypeOf(value).name === 'AggregateError'
+        prototypeName(value) === 'AggregateError'
     );
 }
diff --git a/packages/types/src/error/isError.ts b/packages/types/src/error/isError.ts
index 28a13b4..cda32e0 100644
--- a/packages/types/src/error/isError.ts
+++ b/packages/types/src/error/isError.ts
@@ -1,4 +1,5 @@
 import getTagEqual from '../type/getTagEqual';
+import prototypeName from './constants/prototypeName';
 
 /**
  * 是不是一个 `Error` 对象
@@ -10,6 +11,6 @@ import getTagEqual from '../type/getTagEqual';
 export default function isError(value: unknown): value is Error {
     return (
         getTagEqual(value, 'Error') &&
-        Object.getPrototypeOf(value).name === 'Error'
+        prototypeName(value) === 'Error'
     );
 }
diff --git a/packages/types/src/error/isEvalError.ts b/packages/types/src/error/isEvalError.ts
index cf74ba7..d922a34 100644
--- a/packages/types/src/error/isEvalError.ts
+++ b/packages/types/src/error/isEvalError.ts
@@ -1,4 +1,5 @@
 import isAnyError from './isAnyError';
+import prototypeName from './constants/prototypeName';
 
 /**
  * 是不是一个 `EvalError` 对象
@@ -8,6 +9,6 @@ import isAnyError from './isAnyError';
  */
 export default function isEvalError(value: unknown): value is EvalError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'EvalError'
+        isAnyError(value) && prototypeName(value) === 'EvalError'
     );
 }
diff --git a/packages/types/src/error/isRangeError.ts b/packages/types/src/error/isRangeError.ts
index 529b21a..ebcb5f8 100644
--- a/packages/types/src/error/isRangeError.ts
+++ b/packages/types/src/error/isRangeError.ts
@@ -1,4 +1,5 @@
 import isAnyError from './isAnyError';
+import prototypeName from './constants/prototypeName';
 
 /**
  * 是不是一个 `RangeError` 对象
@@ -8,6 +9,6 @@ import isAnyError from './isAnyError';
  */
 export default function isRangeError(value: unknown): value is RangeError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'RangeError'
+        isAnyError(value) && prototypeName(value) === 'RangeError'
     );
 }
diff --git a/packages/types/src/error/isReferenceError.ts b/packages/types/src/error/isReferenceError.ts
index d5bcb01..dce42f8 100644
--- a/packages/types/src/error/isReferenceError.ts
+++ b/packages/types/src/error/isReferenceError.ts
@@ -1,4 +1,5 @@
 import isAnyError from './isAnyError';
+import prototypeName from './constants/prototypeName';
 
 /**
  * 是不是一个 `ReferenceError` 对象
@@ -11,6 +12,6 @@ export default function isReferenceError(
 ): value is ReferenceError {
     return (
         isAnyError(value) &&
-        Object.getPrototypeOf(value).name === 'ReferenceError'
+        prototypeName(value) === 'ReferenceError'
     );
 }
diff --git a/packages/types/src/error/isSyntaxError.ts b/packages/types/src/error/isSyntaxError.ts
index e8be054..91c854c 100644
--- a/packages/types/src/error/isSyntaxError.ts
+++ b/packages/types/src/error/isSyntaxError.ts
@@ -1,4 +1,5 @@
 import isAnyError from './isAnyError';
+import prototypeName from './constants/prototypeName';
 
 /**
  * 是不是一个 `SyntaxError` 对象
@@ -8,6 +9,6 @@ import isAnyError from './isAnyError';
  */
 export default function isSyntaxError(value: unknown): value is SyntaxError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'SyntaxError'
+        isAnyError(value) && prototypeName(value) === 'SyntaxError'
     );
 }
diff --git a/packages/types/src/error/isTypeError.ts b/packages/types/src/error/isTypeError.ts
index f1e19be..917a3b4 100644
--- a/packages/types/src/error/isTypeError.ts
+++ b/packages/types/src/error/isTypeError.ts
@@ -1,4 +1,5 @@
 import isAnyError from './isAnyError';
+import prototypeName from './constants/prototypeName';
 
 /**
  * 是不是一个 `TypeError` 对象
@@ -8,6 +9,6 @@ import isAnyError from './isAnyError';
  */
 export default function isTypeError(value: unknown): value is TypeError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'TypeError'
+        isAnyError(value) && prototypeName(value) === 'TypeError'
     );
 }
diff --git a/packages/types/src/error/isURIError.ts b/packages/types/src/error/isURIError.ts
index cbf9b00..990b933 100644
--- a/packages/types/src/error/isURIError.ts
+++ b/packages/types/src/error/isURIError.ts
@@ -1,4 +1,5 @@
 import isAnyError from './isAnyError';
+import prototypeName from './constants/prototypeName';
 
 /**
  * 是不是一个 `URIError` 对象
@@ -12,6 +13,6 @@ import isAnyError from './isAnyError';
  */
 export default function isURIError(value: unknown): value is EvalError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'URIError'
+        isAnyError(value) && prototypeName(value) === 'URIError'
     );
 }
-- 
2.43.0


From d8501e1da1c913465a0b05917d5cddcec8c9b88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 100/150] fix: function predicates accept functions with any
 name

---
 packages/types/src/function/isFunctionBound.ts  | 2 +-
 packages/types/src/function/isNativeFunction.ts | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/packages/types/src/function/isFunctionBound.ts b/packages/types/src/function/isFunctionBound.ts
index 65c40b5..9055a1b 100644
--- a/packages/types/src/function/isFunctionBound.ts
+++ b/packages/types/src/function/isFunctionBound.ts
@@ -19,7 +19,7 @@ export default function isFunctionBound<
 >(value: unknown): value is Function<R, A> {
     return (
         isFunction(value) &&
-        value.name.startsWith('bound ') &&
+        String(value.name).startsWith('bound ') &&
         !hasOwnProperty(value, 'prototype') &&
         value.toString() === 'function () { [native code] }'
     );
diff --git a/packages/types/src/function/isNativeFunction.ts b/packages/types/src/function/isNativeFunction.ts
index cf50889..ec449dc 100644
--- a/packages/types/src/function/isNativeFunction.ts
+++ b/packages/types/src/function/isNativeFunction.ts
@@ -19,8 +19,7 @@ export default function isNativeFunction<
         // 确保该函数没有被人为修改
         isNativeFunctionToString &&
         // 结果只能是特定的字符串
-        new RegExp(
-            `^function ${(value as any).name}\\(\\) \\{ \\[native code\\] \\}$`
-        ).test(functionToString.call(value))
+        functionToString.call(value) ===
+            `function ${String(value.name)}() { [native code] }`
     );
 }
-- 
2.43.0


From d7f880f0931172b3249bab807f064e4166547945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 101/150] fix: isClass recognises anonymous classes and no
 methods

---
 packages/types/src/function/isClass.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/types/src/function/isClass.ts b/packages/types/src/function/isClass.ts
index 46a0a81..eb3edf4 100644
--- a/packages/types/src/function/isClass.ts
+++ b/packages/types/src/function/isClass.ts
@@ -1,3 +1,4 @@
+import hasOwnProperty from '../property/hasOwnProperty';
 import { functionToString } from './constants';
 import isFunction from './isFunction';
 import type { Class } from './types';
@@ -16,6 +17,9 @@ export default function isClass<R = unknown, A extends unknown[] = unknown[]>(
     value: unknown
 ): value is Class<R, A> {
     return (
-        isFunction(value) && functionToString.call(value).startsWith('class ')
+        isFunction(value) &&
+        functionToString.call(value).startsWith('class') &&
+        // 名称以 `class` 开头的方法没有 `prototype` 属性
+        hasOwnProperty(value, 'prototype')
     );
 }
-- 
2.43.0


From 3f240b71ae3e30778793899e1e9dc2b40a67586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 102/150] fix: isVarName accepts a single identifier only

---
 packages/types/src/variable/isVarName.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/types/src/variable/isVarName.ts b/packages/types/src/variable/isVarName.ts
index bd2b608..f4495ff 100644
--- a/packages/types/src/variable/isVarName.ts
+++ b/packages/types/src/variable/isVarName.ts
@@ -1,5 +1,8 @@
 import isString from '../string/isString';
 
+const identifierReg =
+    /^(?:[$_\p{ID_Start}]|\\u(?:[\da-f]{4}|\{[\da-f]+\}))(?:[$\u200c\u200d\p{ID_Continue}]|\\u(?:[\da-f]{4}|\{[\da-f]+\}))*$/iu;
+
 /**
  * 是不是可以把值当做 `JavaScript` 的变量名
  *
@@ -8,7 +11,8 @@ import isString from '../string/isString';
  * @returns 是则返回 `true`，否则为 `false`
  */
 export default function isVarName(value: unknown): value is string {
-    if (!isString(value) || value.trim() !== value) {
+    // 只能是单个标识符，不能是 `a = 1`、`a, b` 或 `{ a } = b` 等可以出现在 `var` 之后的代码
+    if (!isString(value) || !identifierReg.test(value)) {
         return false;
     }
 
-- 
2.43.0


From 1b3554cf2d9b8f88f9514972a25c6767b6b55d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 103/150] fix: getTag slices every tag

---
 packages/types/src/type/getTag.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/types/src/type/getTag.ts b/packages/types/src/type/getTag.ts
index e274415..6b60b7d 100644
--- a/packages/types/src/type/getTag.ts
+++ b/packages/types/src/type/getTag.ts
@@ -3,7 +3,7 @@ import isNativeFunction from '../function/isNativeFunction';
 export default (() => {
     const store: Record<string, string> = {};
     const cachedToString = Object.prototype.toString;
-    const tagExtractReg = /^\[object ([^\]]+)\]$/;
+    const tagExtractReg = /^\[object ([\s\S]*)\]$/;
 
     if (!isNativeFunction(cachedToString)) {
         let pack: string = '';
-- 
2.43.0


From 01da2a88e2419e62d1f2c215ddd329235fc2a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 104/150] fix: isElement, isEvent and isFormData work where the
 class does not exist

---
 packages/types/src/element/isElement.ts | 2 +-
 packages/types/src/event/isEvent.ts     | 2 +-
 packages/types/src/form/isFormData.ts   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/types/src/element/isElement.ts b/packages/types/src/element/isElement.ts
index e55a7bd..c2d283a 100644
--- a/packages/types/src/element/isElement.ts
+++ b/packages/types/src/element/isElement.ts
@@ -10,5 +10,5 @@
  *
  */
 export default function isElement(value: unknown): value is Element {
-    return value instanceof Element;
+    return typeof Element === 'function' && value instanceof Element;
 }
diff --git a/packages/types/src/event/isEvent.ts b/packages/types/src/event/isEvent.ts
index 7b35450..44d2750 100644
--- a/packages/types/src/event/isEvent.ts
+++ b/packages/types/src/event/isEvent.ts
@@ -5,5 +5,5 @@
  * @returns 是则返回 `true`，否则为 `false`
  */
 export default function isEvent(value: unknown): value is Event {
-    return value instanceof Event;
+    return typeof Event === 'function' && value instanceof Event;
 }
diff --git a/packages/types/src/form/isFormData.ts b/packages/types/src/form/isFormData.ts
index fa53a14..21981df 100644
--- a/packages/types/src/form/isFormData.ts
+++ b/packages/types/src/form/isFormData.ts
@@ -11,7 +11,7 @@ import getTagEqual from '../type/getTagEqual';
  */
 export default function isFormData(value: unknown): value is FormData {
     return (
-        (isFunction(FormData) && value instanceof FormData) ||
+        (typeof FormData === 'function' && value instanceof FormData) ||
         (!isNullOrUndefined(value) &&
             isFunction((value as FormData).append) &&
             (getTagEqual<FormData>(value, 'FormData') ||
-- 
2.43.0


From 3781c184853206747d77684176eb1eed21d94c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 105/150] fix: isArrayLike counts array indexes only

---
 packages/types/src/array/isArrayLike.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/types/src/array/isArrayLike.ts b/packages/types/src/array/isArrayLike.ts
index 40889f9..cf59122 100644
--- a/packages/types/src/array/isArrayLike.ts
+++ b/packages/types/src/array/isArrayLike.ts
@@ -49,7 +49,9 @@ export default function isArrayLike<T = unknown>(
     }
 
     const keys = Object.keys(value);
-    const nkl = keys.map(Number).filter(isArrayIndex).length;
+    const nkl = keys.filter(
+        k => isArrayIndex(Number(k)) && String(Number(k)) === k
+    ).length;
 
     if (!isSparse) {
         for (let i = 0, len = nkl; i < len; i++) {
-- 
2.43.0


From 5ab64470f296985973ee0974701ee92e633cf2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 106/150] fix: isBuffer always answers a boolean

---
 packages/types/src/buffer/isBuffer.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/types/src/buffer/isBuffer.ts b/packages/types/src/buffer/isBuffer.ts
index b8b38e7..b63f485 100644
--- a/packages/types/src/buffer/isBuffer.ts
+++ b/packages/types/src/buffer/isBuffer.ts
@@ -21,7 +21,7 @@ const r = (value: any) => value.constructor.isBuffer(value);
  */
 export default function isBuffer(value: unknown): value is Buffer {
     try {
-        return (
+        return !!(
             r(value) ||
             ((value as Buffer).readFloatLE &&
                 r((value as Buffer).subarray(0, 1)))
-- 
2.43.0


From d1ec7734070574b73ddee818c325269e10ac7a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 107/150] fix: assertEqual and assertNotEqual compare with each
 given value

---
 packages/asserts/src/cmp/assertEqual.ts    | 2 +-
 packages/asserts/src/cmp/assertNotEqual.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/asserts/src/cmp/assertEqual.ts b/packages/asserts/src/cmp/assertEqual.ts
index 4cc1a6a..89dd20c 100644
--- a/packages/asserts/src/cmp/assertEqual.ts
+++ b/packages/asserts/src/cmp/assertEqual.ts
@@ -13,7 +13,7 @@ export default function assertEqual<T extends unknown[]>(
     value: unknown,
     ...args: T
 ) {
-    if (!isEqual(value, args)) {
+    if (!isEqual(value, ...args)) {
         throw new TypeError(
             `[assertEqual] ${value} 与 ${args} 中的某些值不相等`
         );
diff --git a/packages/asserts/src/cmp/assertNotEqual.ts b/packages/asserts/src/cmp/assertNotEqual.ts
index a01257a..a479b8a 100644
--- a/packages/asserts/src/cmp/assertNotEqual.ts
+++ b/packages/asserts/src/cmp/assertNotEqual.ts
@@ -13,7 +13,7 @@ export default function assertNotEqual<T extends unknown[]>(
     value: unknown,
     ...args: T
 ) {
-    if (!isNotEqual(value, args)) {
+    if (!isNotEqual(value, ...args)) {
         throw new TypeError(`[assertEqual] ${value} 与 ${args} 中的某些值相等`);
     }
 }
-- 
2.43.0


From 42bed603155fcf14e0f5c8b93220e19fe0ea5e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 108/150] fix: ansiFormat resets the rapid blink it sets

---
 packages/term/src/ansiFormat.ts | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/packages/term/src/ansiFormat.ts b/packages/term/src/ansiFormat.ts
index 570a58d..7bca77a 100644
--- a/packages/term/src/ansiFormat.ts
+++ b/packages/term/src/ansiFormat.ts
@@ -65,16 +65,20 @@ export default function ansiFormat(
             case 'bold':
                 // `22` 和 `21` 的作用相同
                 resetAppend++;
+                break;
 
-            default:
-                if (isTrue(value)) {
-                    setColor.push(i + 1);
-                    resetColor.push(i + resetAppend);
-                } else if (isFalse(value)) {
-                    resetColor.push(i + resetAppend);
-                }
+            case 'rapidBlink':
+                // `25` 同时恢复缓慢闪烁和快速闪烁
+                resetAppend--;
                 break;
         }
+
+        if (isTrue(value)) {
+            setColor.push(i + 1);
+            resetColor.push(i + resetAppend);
+        } else if (isFalse(value)) {
+            resetColor.push(i + resetAppend);
+        }
     }
 
     return {
-- 
2.43.0


From b70a368e9384f96ce397d08d8f163eaf9b72fb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 109/150] fix: colorCode24bit rejects arrays with holes

---
 packages/term/src/colorCode24bit.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/term/src/colorCode24bit.ts b/packages/term/src/colorCode24bit.ts
index 8270ed5..ea72f1a 100644
--- a/packages/term/src/colorCode24bit.ts
+++ b/packages/term/src/colorCode24bit.ts
@@ -31,13 +31,14 @@ export default function colorCode24bit(colorCodes: number[]): ColorCodeResult {
         );
     }
 
-    colorCodes.forEach(colorCode => {
+    // 使用 `for...of` 而不是 `forEach`，因为后者会跳过数组中的空槽
+    for (const colorCode of colorCodes) {
         if (!isUintSafe(colorCode) || colorCode < 0 || colorCode > 255) {
             throw new TypeError(
                 `[colorCode24bit]: colorCode不是一个有效数字, "${colorCode}"`
             );
         }
-    });
+    }
 
     const code = colorCodes.join(';');
 
-- 
2.43.0


From ee823ddfa2e8517e0ad0ef44cdc90d55f2864616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 110/150] fix: format prints a title with percent signs
 unchanged

---
 packages/term/src/format.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/term/src/format.ts b/packages/term/src/format.ts
index 655f550..dd89aa4 100644
--- a/packages/term/src/format.ts
+++ b/packages/term/src/format.ts
@@ -244,5 +244,10 @@ export default function format(info: ForMatInfo, options?: ForMatOptions) {
         styleText.push(LF);
     }
 
+    // 第一项会被 `formatWithOptions` 当作格式化字符串，因此需要转义其中的 `%`
+    if (styleText.length > 1) {
+        styleText[0] = styleText[0].replace(/%/g, '%%');
+    }
+
     return formatWithOptions({ ...options }, ...styleText);
 }
-- 
2.43.0


From 76d0796f5d88f16f77d83716d5d85ea9704ef1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 111/150] fix: ProgressBar completes with the last push of its
 total

---
 packages/term/src/progressBar.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/term/src/progressBar.ts b/packages/term/src/progressBar.ts
index 41ac71d..4a73e96 100644
--- a/packages/term/src/progressBar.ts
+++ b/packages/term/src/progressBar.ts
@@ -159,7 +159,7 @@ export default class ProgressBar {
     write(value: string = ''): boolean {
         stdout.write(`${clearLine()}${this.record.join(' ')} ${value}`);
 
-        return isEqual(this.options.total, this.index) && this.end();
+        return isEqual(this.options.total, this.index + 1) && this.end();
     }
 
     /**
-- 
2.43.0


From e533ab05dc802cd9ecca00ec0c3060a2f4d78d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 112/150] fix: ProgressBar shows the exact whole percentage and
 bar

---
 packages/term/src/progressBar.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/term/src/progressBar.ts b/packages/term/src/progressBar.ts
index 4a73e96..b5170eb 100644
--- a/packages/term/src/progressBar.ts
+++ b/packages/term/src/progressBar.ts
@@ -85,13 +85,13 @@ export default class ProgressBar {
         if (isUintSafe(total)) {
             // 有限
             if (picture) {
-                const finish = Math.floor((lastIndex / total!) * 10);
+                const finish = Math.floor((lastIndex * 10) / total!);
                 const text = '#'.repeat(finish).padEnd(10, ' ');
                 bars.push(`[${text}]`);
             }
 
             if (percentage) {
-                const number = Math.floor((lastIndex / total!) * 100);
+                const number = Math.floor((lastIndex * 100) / total!);
                 bars.push(`${number}%`);
             }
 
-- 
2.43.0


From 955ff909b7771c2ad4dcbab9583ce4470fdcbde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 113/150] fix: assertPrototypeOf checks the prototype chain of
 the given object

---
 packages/asserts/src/property/assertPrototypeOf.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/asserts/src/property/assertPrototypeOf.ts b/packages/asserts/src/property/assertPrototypeOf.ts
index bbf249e..8cf929d 100644
--- a/packages/asserts/src/property/assertPrototypeOf.ts
+++ b/packages/asserts/src/property/assertPrototypeOf.ts
@@ -7,11 +7,13 @@ import typeGuard from '../constants/typeGuard';
  *
  * @param value 要验证的值
  * @param variableName 该值的变量名
+ * @param v 要检查其原型链的另一个对象
  * @throws 如果不是则会抛出类型异常
  */
 export default function assertPrototypeOf<T = unknown>(
     value: unknown,
-    variableName: string
+    variableName: string,
+    v: unknown
 ): asserts value is T {
-    return typeGuard(value, variableName, isPrototypeOf);
+    return typeGuard(value, variableName, isPrototypeOf, v);
 }
-- 
2.43.0


From 695eca053f3efe678de58d8928c9569d24dd198b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 114/150] fix: request accepts a URL object

---
 packages/request/src/request/options.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index 94bdcd0..bbc4c50 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -13,7 +13,8 @@ import {
     isObjectFilled,
     isStringFilled,
     isTrue,
-    isTypeofObject
+    isTypeofObject,
+    isURL
 } from '@curong/types';
 
 import type { Methods, RequestOptions } from '../types';
@@ -144,7 +145,7 @@ export const deleteOptionsAttr = <T extends Record<PropertyKey, any>>(
  * @param baseUrl 基本的 URL
  * @param options 请求选项
  */
-const urlToParams = (baseUrl: string, options: RequestOptions) => {
+const urlToParams = (baseUrl: string | URL, options: RequestOptions) => {
     let urlParams;
 
     try {
@@ -193,7 +194,7 @@ export const optionsHandler = (
     // 添加通用请求头
     options.headers = toLowerCaseKey({ ...commonHeaders, ...options.headers });
 
-    if (isStringFilled(baseUrl)) {
+    if (isStringFilled(baseUrl) || isURL(baseUrl)) {
         urlToParams(baseUrl, options);
     }
 
-- 
2.43.0


From c440fe04e63b336ad2db2c7d3ac2766b47d95d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 115/150] fix: request appends the query to the query string of
 the URL

---
 packages/request/src/request/options.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index bbc4c50..c8a4ccf 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -168,9 +168,8 @@ const urlToParams = (baseUrl: string | URL, options: RequestOptions) => {
 
     options.https ??= protocol === 'https:';
     options.hostname ??= hostname;
-    options.path = options.query // 如果传递空对象也是 `true`
-        ? getPath(options.path ?? path, options.query)
-        : getPath((options.path ?? path) + search);
+    // `query` 中的内容会追加到 URL 已有的查询字符串之后
+    options.path = getPath((options.path ?? path) + search, options.query);
     Reflect.deleteProperty(options, 'query'); // 删除它，防止后续重复操作
     options.port ??= port ? +port : undefined;
     options.auth ??=
-- 
2.43.0


From 94f6b1c44e6ccdaed5f780b3d2aa39b42505068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 116/150] fix: request puts the query before the fragment of
 the path

---
 packages/request/src/request/options.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index c8a4ccf..a66fddf 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -121,7 +121,12 @@ const getPath = (path?: string, query?: ParsedUrlQueryInput) => {
         return '/';
     }
 
-    path = path.trim();
+    // `#` 之后的内容不会发送给服务器，`query` 必须追加到它之前
+    path = path.trim().split('#', 1)[0];
+
+    if (!isStringFilled(path)) {
+        path = '/';
+    }
 
     if (isObjectFilled(query)) {
         path = joinUrlQuery(path, query);
-- 
2.43.0


From 6ddd3c7f4982b323d23181a84c04c531cceae877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 117/150] fix: request decodes the credentials of the URL

---
 packages/request/src/request/options.ts | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index a66fddf..62f2b9e 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -144,6 +144,15 @@ export const deleteOptionsAttr = <T extends Record<PropertyKey, any>>(
     }
 };
 
+/** 解码 URL 中的用户名或密码，如果不能解码则原样返回 */
+const decode = (value: string) => {
+    try {
+        return decodeURIComponent(value);
+    } catch {
+        return value;
+    }
+};
+
 /**
  * 进行数据整合，根据选项替换 URL 中的内容
  *
@@ -178,7 +187,9 @@ const urlToParams = (baseUrl: string | URL, options: RequestOptions) => {
     Reflect.deleteProperty(options, 'query'); // 删除它，防止后续重复操作
     options.port ??= port ? +port : undefined;
     options.auth ??=
-        username && password ? `${username}:${password}` : undefined;
+        username || password
+            ? `${decode(username)}:${decode(password)}`
+            : undefined;
 };
 
 export const optionsHandler = (
-- 
2.43.0


From f00c18c1b0a0bb17a9b38317b34b093340ea2ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 118/150] fix: request names the port and IPv6 brackets in the
 host header

---
 packages/request/src/request/options.ts | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index 62f2b9e..a56b317 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -181,7 +181,8 @@ const urlToParams = (baseUrl: string | URL, options: RequestOptions) => {
     } = urlParams;
 
     options.https ??= protocol === 'https:';
-    options.hostname ??= hostname;
+    // IPv6 地址在建立连接时不能包含方括号
+    options.hostname ??= hostname.replace(/^\[(.+)\]$/, '$1');
     // `query` 中的内容会追加到 URL 已有的查询字符串之后
     options.path = getPath((options.path ?? path) + search, options.query);
     Reflect.deleteProperty(options, 'query'); // 删除它，防止后续重复操作
@@ -213,15 +214,19 @@ export const optionsHandler = (
         urlToParams(baseUrl, options);
     }
 
-    const { hostname, path = '/', https = true, query } = options;
+    const { hostname, path = '/', https = true, query, port } = options;
+    // 请求头中的 IPv6 地址需要包含方括号，非默认的端口号不能省略
+    const host =
+        (hostname?.includes(':') ? `[${hostname}]` : hostname) +
+        (port && port !== (https ? 443 : 80) ? `:${port}` : '');
     // `hostname` 有可能是 IP 地址，这时候就要看看 `options.headers.host` 有没有值了
-    const origin = `${https ? 'https' : 'http'}://${options.headers.host ?? hostname}`;
+    const origin = `${https ? 'https' : 'http'}://${options.headers.host ?? host}`;
 
     deleteOptionsAttr(options, ['https', 'query']);
     validationParameters({ hostname, path });
 
     options.path = getPath(path, query);
-    options.headers.host ??= hostname;
+    options.headers.host ??= host;
     options.headers.origin ??= origin;
     // 可包含完整的 URL 路径（包括协议、主机名、端口、路径等），后面不要加 `/` 了
     options.headers.referer ??= origin;
-- 
2.43.0


From b47799398f7642f58487d58a3d8a40cdf2e56cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 119/150] fix: request refuses an empty hostname

---
 packages/request/src/request/options.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index a56b317..db20a49 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -223,7 +223,7 @@ export const optionsHandler = (
     const origin = `${https ? 'https' : 'http'}://${options.headers.host ?? host}`;
 
     deleteOptionsAttr(options, ['https', 'query']);
-    validationParameters({ hostname, path });
+    validationParameters({ hostname: hostname || undefined, path });
 
     options.path = getPath(path, query);
     options.headers.host ??= host;
-- 
2.43.0


From a7502b36eaadb71800fd42cc948f03d57ee2eded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 120/150] fix: request refuses URLs of other protocols

---
 packages/request/src/request/options.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index db20a49..81cf4ca 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -164,7 +164,9 @@ const urlToParams = (baseUrl: string | URL, options: RequestOptions) => {
 
     try {
         urlParams = new URL(baseUrl);
-    } catch {
+    } catch {}
+
+    if (!urlParams || !/^https?:$/.test(urlParams.protocol)) {
         throw new TypeError(
             `[urlToParams] baseUrl 不是一个合法链接: ${baseUrl}`
         );
-- 
2.43.0


From 9de678e91ea969981c325d3972eb4a79bf86e8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 121/150] fix: request passes agent, signal and callbacks on
 unchanged

---
 packages/request/src/request/request.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 8a7c0ab..44552f2 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -8,7 +8,6 @@ import {
     isObjectFilled,
     isStringFilled
 } from '@curong/types';
-import { copy } from '@curong/util';
 
 import type { RequestHandler, RequestOptions, RequestResult } from '../types';
 
@@ -182,7 +181,8 @@ export default async function request(
         url = undefined;
     }
 
-    const config = copy(options);
+    // 这里不能使用深拷贝，选项中的 `agent`、`signal`、`lookup` 等属性必须原样传递
+    const config = { ...options };
 
     const requestFn = optionsHandler(url, config);
     const { body, delay, maxRedirects } = config;
-- 
2.43.0


From 5f6892e9b865a19840ffb476800b791b06ebcfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 122/150] fix: request rejects with the result instead of with
 a promise

---
 packages/request/src/request/request.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 44552f2..47766da 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -262,7 +262,7 @@ export default async function request(
             const serialStream = pipeDecompressStream(res);
 
             /** 创建返回的数据对象 */
-            const returns = async (error?: Error) => {
+            const returns = (error?: Error) => {
                 req.destroy();
 
                 const data = Buffer.concat(buffers);
-- 
2.43.0


From 58e6e8d1284a97ed962eca40720446115df824cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 123/150] fix: request finds the body encoding in any case of
 the content type

---
 packages/request/src/request/content.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/request/src/request/content.ts b/packages/request/src/request/content.ts
index 23125f6..de8566b 100644
--- a/packages/request/src/request/content.ts
+++ b/packages/request/src/request/content.ts
@@ -117,9 +117,11 @@ export function contentTypeCallback(options: RequestOptions) {
     const headers = options.headers;
 
     if (headers) {
-        const contentType = (headers['content-type'] ??
-            headers['Content-Type'] ??
-            '') as string;
+        const contentType = (
+            (headers['content-type'] ??
+                headers['Content-Type'] ??
+            '') as string
+        ).toLowerCase();
 
         if (isFormUrlencodedType(contentType)) {
             return stringify;
-- 
2.43.0


From 515fe0a39dd0d7235fe586cdaff64fd9b6ec0bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 124/150] fix: request decompresses zlib data of every window
 size

---
 packages/request/src/request/content.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/request/src/request/content.ts b/packages/request/src/request/content.ts
index de8566b..fc80b10 100644
--- a/packages/request/src/request/content.ts
+++ b/packages/request/src/request/content.ts
@@ -44,7 +44,8 @@ export function pipeDecompressStream(res: IncomingMessage): IncomingMessage {
             if (chunk.length !== 0) {
                 this._transform = this.__transform;
 
-                if (chunk[0] !== 0x78) {
+                // 低 `4` 位为 `8` 表示存在 `zlib` 头，窗口大小不同时高 `4` 位也会不同
+                if ((chunk[0] & 0x0f) !== 0x08) {
                     const header = Buffer.alloc(2);
                     header[0] = 0x78;
                     header[1] = 0x9c;
-- 
2.43.0


From 36278e21b1b141957fd7b445accf521cfa3c62a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 125/150] fix: objectToFormData keeps the elements of nested
 arrays

---
 packages/request/src/request/formData.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/request/formData.ts b/packages/request/src/request/formData.ts
index 3e3f252..6dbab9e 100644
--- a/packages/request/src/request/formData.ts
+++ b/packages/request/src/request/formData.ts
@@ -128,7 +128,7 @@ export function objectToFormData(
                 ? `${arrayKeyPrefix}[${index}]`
                 : `${parentKey}[${index}]`;
 
-            if (isPlainObject(value)) {
+            if (isPlainObject(value) || isArray(value)) {
                 objectToFormData(value, {
                     arrayKeyPrefix,
                     parentKey: key,
@@ -145,7 +145,7 @@ export function objectToFormData(
     for (const [key, value] of Object.entries(object)) {
         const nestedKey = parentKey ? `${parentKey}.${key}` : key;
 
-        if (isPlainObject(value)) {
+        if (isPlainObject(value) || isArray(value)) {
             objectToFormData(value as NestedObject, {
                 arrayKeyPrefix,
                 parentKey: nestedKey,
-- 
2.43.0


From bb0de4576633c4eadea185239985c489c7c3604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 126/150] fix: request sends a FormData body as multipart by
 default

---
 packages/request/src/request/body.ts    |  2 +-
 packages/request/src/request/content.ts | 26 ++++++++++++++-----------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/packages/request/src/request/body.ts b/packages/request/src/request/body.ts
index ff85bf9..aadd948 100644
--- a/packages/request/src/request/body.ts
+++ b/packages/request/src/request/body.ts
@@ -21,7 +21,7 @@ export async function handleBody(
         } else if (isBuffer(body) || isUint8Array(body)) {
             bodyBuffer = body;
         } else if (isTypeofObject(body)) {
-            bodyBuffer = await contentTypeCallback(options)(body);
+            bodyBuffer = await contentTypeCallback(options, body)(body);
         } else {
             bodyBuffer = String(body);
         }
diff --git a/packages/request/src/request/content.ts b/packages/request/src/request/content.ts
index fc80b10..4e22562 100644
--- a/packages/request/src/request/content.ts
+++ b/packages/request/src/request/content.ts
@@ -114,25 +114,21 @@ const isFormDataType = (type: string) => {
  * @param options 请求配置选项
  * @returns 返回处理 `content-type` 的函数
  */
-export function contentTypeCallback(options: RequestOptions) {
+export function contentTypeCallback(
+    options: RequestOptions,
+    body?: RequestOptions['body']
+) {
     const headers = options.headers;
 
     if (headers) {
         const contentType = (
             (headers['content-type'] ??
                 headers['Content-Type'] ??
-            '') as string
+                '') as string
         ).toLowerCase();
 
-        if (isFormUrlencodedType(contentType)) {
-            return stringify;
-        }
-
-        if (isJsonType(contentType)) {
-            return JSON.stringify;
-        }
-
-        if (isFormDataType(contentType)) {
+        // `FormData` 只能以 `multipart/form-data` 的格式发送
+        if (isFormDataType(contentType) || isFormData(body)) {
             return async (body: Record<PropertyKey, any> | FormData) => {
                 if (!isFormData(body)) {
                     body = objectToFormData(body);
@@ -143,6 +139,14 @@ export function contentTypeCallback(options: RequestOptions) {
                 });
             };
         }
+
+        if (isFormUrlencodedType(contentType)) {
+            return stringify;
+        }
+
+        if (isJsonType(contentType)) {
+            return JSON.stringify;
+        }
     }
 
     return (v: any) => v;
-- 
2.43.0


From 63b6abd5f44a9fb37c63b4bb7e1bb703ac2ab3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 127/150] fix: request keeps the options of the caller
 unchanged when it is redirected

---
 packages/request/src/request/request.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 47766da..a75bd3b 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -181,6 +181,9 @@ export default async function request(
         url = undefined;
     }
 
+    // 重定向时会修改 `options`，因此不能直接使用调用者传递的对象
+    options = { ...options };
+
     // 这里不能使用深拷贝，选项中的 `agent`、`signal`、`lookup` 等属性必须原样传递
     const config = { ...options };
 
-- 
2.43.0


From 2406a8e9fc3649536f946af8acf1d5d7337724da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 128/150] fix: request hands the handlers on to the redirected
 request

---
 packages/request/src/request/request.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index a75bd3b..30a7cfc 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -258,7 +258,7 @@ export default async function request(
                     ]);
                 }
 
-                return resolve(request(locationUrl, options));
+                return resolve(request(locationUrl, options, handlers));
             }
 
             const buffers: Buffer[] = [];
-- 
2.43.0


From 787e919405b65d93ad49638a18387af96c98f5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 129/150] fix: request resolves a relative redirect and rejects
 an invalid one

---
 packages/request/src/request/options.ts | 15 ++++++++++++++
 packages/request/src/request/request.ts | 26 +++++++++++++++++++++----
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index 81cf4ca..011cba4 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -195,6 +195,21 @@ const urlToParams = (baseUrl: string | URL, options: RequestOptions) => {
             : undefined;
 };
 
+/**
+ * 获取当前请求的完整 URL
+ *
+ * @param options 由 `optionsHandler` 处理后的请求选项
+ * @param https 是否使用 `https` 发送请求
+ */
+export const getRequestUrl = (options: RequestOptions, https: boolean): URL => {
+    const { hostname = '', port, path } = options;
+    const host = hostname.includes(':') ? `[${hostname}]` : hostname;
+
+    return new URL(
+        `${https ? 'https' : 'http'}://${host}${port ? `:${port}` : ''}${path}`
+    );
+};
+
 export const optionsHandler = (
     baseUrl: string | URL | undefined,
     options: RequestOptions = {}
diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 30a7cfc..4060266 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -1,4 +1,5 @@
 import { IncomingMessage, type ClientRequest } from 'http';
+import { request as HttpsRequest } from 'https';
 
 import { delayRun } from '@curong/function';
 import { toLowerCaseKey } from '@curong/object';
@@ -13,7 +14,7 @@ import type { RequestHandler, RequestOptions, RequestResult } from '../types';
 
 import { handleBody } from './body';
 import { pipeDecompressStream } from './content';
-import { deleteOptionsAttr, optionsHandler } from './options';
+import { deleteOptionsAttr, getRequestUrl, optionsHandler } from './options';
 
 /**
  * 从远程连接获取响应的内容并返回 `Buffer`
@@ -218,7 +219,24 @@ export default async function request(
                 options.maxRedirects = maxRedirects - 1;
 
                 // 对请求头的处理
-                const redirectHost = new URL(locationUrl).hostname;
+                let requestUrl: URL, redirectUrl: URL;
+
+                try {
+                    requestUrl = getRequestUrl(
+                        config,
+                        requestFn === HttpsRequest
+                    );
+                    // `location` 有可能是相对于当前请求的地址
+                    redirectUrl = new URL(locationUrl, requestUrl);
+                } catch (error) {
+                    return reject(
+                        new Error('[request] 重定向的地址不是一个合法链接', {
+                            cause: { request: req, config, error }
+                        })
+                    );
+                }
+
+                const redirectHost = redirectUrl.hostname;
 
                 // 当进行重定向时，删除 URL 中已包含的重复部分
                 deleteOptionsAttr(options, [
@@ -237,7 +255,7 @@ export default async function request(
                 }
 
                 // 如果当前请求的主机名与要重定向的主机名不同，则删除隐私数据
-                if (!isNull(redirectHost) && redirectHost !== config.hostname) {
+                if (!isNull(redirectHost) && redirectHost !== requestUrl.hostname) {
                     deleteOptionsAttr(options, ['auth']);
                     deleteOptionsAttr(options.headers, [
                         'cookie',
@@ -258,7 +276,7 @@ export default async function request(
                     ]);
                 }
 
-                return resolve(request(locationUrl, options, handlers));
+                return resolve(request(redirectUrl, options, handlers));
             }
 
             const buffers: Buffer[] = [];
-- 
2.43.0


From 1f20338f6727024867a525d72ec8c6aac06fc4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 130/150] fix: request does not carry the host header to
 another host

---
 packages/request/src/request/request.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 4060266..2742770 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -263,6 +263,11 @@ export default async function request(
                     ]);
                 }
 
+                // 请求头中的主机名属于当前请求，不能发送给其他主机
+                if (redirectUrl.host !== requestUrl.host) {
+                    deleteOptionsAttr(options.headers, ['host']);
+                }
+
                 // 浏览器会将 POST 请求的 301 和 301 重定向重写为 GET
                 // https://tools.ietf.org/html/rfc7231%5C#section-6.4.2
                 if (
-- 
2.43.0


From dfc99c4f74ad6f0df6d0aff404f936ee9f3e529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:54 +0000
Subject: [PATCH 131/150] fix: request drops the body when a redirect turns
 POST into GET

---
 packages/request/src/request/request.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 2742770..85fa738 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -275,6 +275,7 @@ export default async function request(
                     /^30[12]$/.test(`${res.statusCode}`)
                 ) {
                     options.method = 'GET';
+                    deleteOptionsAttr(options, ['body']);
                     deleteOptionsAttr(options.headers, [
                         'content-length',
                         'content-type'
-- 
2.43.0


From db312c5cc6135e5e4a06b5c0109195ce10ab1eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 132/150] fix: request uses GET after a 303 answer

---
 packages/request/src/request/request.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 85fa738..216fcb8 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -271,8 +271,11 @@ export default async function request(
                 // 浏览器会将 POST 请求的 301 和 301 重定向重写为 GET
                 // https://tools.ietf.org/html/rfc7231%5C#section-6.4.2
                 if (
-                    config.method === 'POST' &&
-                    /^30[12]$/.test(`${res.statusCode}`)
+                    (config.method === 'POST' &&
+                        /^30[12]$/.test(`${res.statusCode}`)) ||
+                    // `303` 始终使用 GET 请求新的 URL
+                    (res.statusCode === 303 &&
+                        !/^(?:GET|HEAD)$/.test(config.method))
                 ) {
                     options.method = 'GET';
                     deleteOptionsAttr(options, ['body']);
-- 
2.43.0


From 9bbc132750cf5f664c3a34465958e22c650a2103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 133/150] fix: request keeps the credentials of the URL on the
 same host

---
 packages/request/src/request/request.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 216fcb8..6a616ec 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -263,6 +263,13 @@ export default async function request(
                     ]);
                 }
 
+                // 沿用当前 URL 中的用户名和密码，除非新的 URL 中存在它们
+                else if (redirectUrl.username || redirectUrl.password) {
+                    deleteOptionsAttr(options, ['auth']);
+                } else {
+                    options.auth = config.auth;
+                }
+
                 // 请求头中的主机名属于当前请求，不能发送给其他主机
                 if (redirectUrl.host !== requestUrl.host) {
                     deleteOptionsAttr(options.headers, ['host']);
-- 
2.43.0


From 6f035b372f7292753ba9bfde857694fb36d69acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 134/150] fix: request rejects when the connection is closed
 without a response

---
 packages/request/src/request/request.ts | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 6a616ec..5003a6f 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -195,8 +195,12 @@ export default async function request(
     let req: ClientRequest;
 
     const getF = (resolve: any, reject: any) => {
+        let responded = false;
+
         /** 发起网络请求 */
         req = requestFn(config, (res: IncomingMessage) => {
+            responded = true;
+
             if (req.destroyed) {
                 return;
             }
@@ -362,6 +366,17 @@ export default async function request(
             );
         });
 
+        // 连接已关闭，但是没有收到响应(比如服务器切换了协议或者接受了 `CONNECT` 请求)
+        req.on('close', () => {
+            if (!responded) {
+                reject(
+                    new Error('[request] 没有收到响应', {
+                        cause: { request: req, config }
+                    })
+                );
+            }
+        });
+
         // 结束请求
         //
         // @note 这里不要用 `req.write()` 来发送请求体
-- 
2.43.0


From 6b2d216d7acfda534f6972cff77a179082a9ae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 135/150] fix: request rejects when a handler throws

---
 packages/request/src/request/request.ts | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 5003a6f..d05a5e4 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -323,14 +323,31 @@ export default async function request(
                 return responseData;
             };
 
+            /** 执行回调函数，如果它抛出了异常，则拒绝并停止当前请求 */
+            const isStop = (handler: () => any) => {
+                try {
+                    return handler();
+                } catch (error) {
+                    reject(error);
+
+                    return true;
+                }
+            };
+
             /** 处理响应头 */
-            if (handlers.header && handlers.header(res, config)) {
+            if (
+                isStop(() => handlers.header && handlers.header(res, config))
+            ) {
                 return resolve(returns());
             }
 
             /** 接收响应体 */
             serialStream.on('data', (chunk: Buffer) => {
-                if (handlers.data && handlers.data(chunk, res, config)) {
+                if (
+                    isStop(
+                        () => handlers.data && handlers.data(chunk, res, config)
+                    )
+                ) {
                     return resolve(returns());
                 }
 
-- 
2.43.0


From ec8b46fb41d0df9fee3ce51cf22996f139308177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 136/150] fix: request does not call the data handler again
 after it stopped

---
 packages/request/src/request/request.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index d05a5e4..05aa21a 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -341,13 +341,22 @@ export default async function request(
                 return resolve(returns());
             }
 
+            let stopped = false;
+
             /** 接收响应体 */
             serialStream.on('data', (chunk: Buffer) => {
+                // 停止之后，解压流中可能还存在未读取完的数据
+                if (stopped) {
+                    return;
+                }
+
                 if (
                     isStop(
                         () => handlers.data && handlers.data(chunk, res, config)
                     )
                 ) {
+                    stopped = true;
+
                     return resolve(returns());
                 }
 
-- 
2.43.0


From 6289d90c2a8e1d489d0781d05d8bcc88d55d9ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 137/150] fix: request keeps the query when the path is empty

---
 packages/request/src/request/options.ts | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index 011cba4..4dc49d9 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -117,12 +117,8 @@ const joinUrlQuery = (url: string, params: Record<string | number, any>) => {
 };
 
 const getPath = (path?: string, query?: ParsedUrlQueryInput) => {
-    if (!isStringFilled(path)) {
-        return '/';
-    }
-
     // `#` 之后的内容不会发送给服务器，`query` 必须追加到它之前
-    path = path.trim().split('#', 1)[0];
+    path = isStringFilled(path) ? path.trim().split('#', 1)[0] : '/';
 
     if (!isStringFilled(path)) {
         path = '/';
-- 
2.43.0


From 90c30b481a327a05b5b145c680aedc06a1bc7492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 138/150] fix: formDataToBuffer names the file even if its name
 is empty

---
 packages/request/src/request/formData.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/request/src/request/formData.ts b/packages/request/src/request/formData.ts
index 6dbab9e..97b6aa9 100644
--- a/packages/request/src/request/formData.ts
+++ b/packages/request/src/request/formData.ts
@@ -62,9 +62,9 @@ export async function formDataToBuffer(
         let headers: string = `Content-Disposition: form-data; name="${escapeName(
             name
         )}"${
-            !isStringValue && (value as Blob).name
-                ? `; filename="${escapeName((value as Blob).name)}"`
-                : ''
+            isStringValue
+                ? ''
+                : `; filename="${escapeName((value as File).name ?? '')}"`
         }${CRLF}`;
 
         if (isStringValue) {
-- 
2.43.0


From 680a760709fb18adf19aa8f6a16edf547c0d18a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:24 +0000
Subject: [PATCH 139/150] fix: once does not run the function again when it is
 called from within

---
 packages/function/src/limit/once.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/function/src/limit/once.ts b/packages/function/src/limit/once.ts
index 7c801c2..25cbcdf 100644
--- a/packages/function/src/limit/once.ts
+++ b/packages/function/src/limit/once.ts
@@ -31,8 +31,16 @@ function once<T extends (...args: any[]) => any, A extends unknown[]>(
 
     return ((...params: Parameters<T>): ReturnType<T> => {
         if (!executed) {
-            result = fn.apply(fn, args.concat(params));
+            // 在执行之前就设置，以免 `fn` 在执行的过程中再次调用自己
             executed = true;
+
+            try {
+                result = fn.apply(fn, args.concat(params));
+            } catch (error) {
+                // 执行失败时，可以再次执行
+                executed = false;
+                throw error;
+            }
         }
         return result as ReturnType<T>;
     }) as T;
-- 
2.43.0


From 6d6d0bd8810bcbcb1278c22ed41e3cc2cabb0cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 140/150] fix: nextTick on an observer does not fail once its
 queue is empty

---
 packages/function/src/timeout/nextTick.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/timeout/nextTick.ts b/packages/function/src/timeout/nextTick.ts
index 3b6c1e0..de3f3ff 100644
--- a/packages/function/src/timeout/nextTick.ts
+++ b/packages/function/src/timeout/nextTick.ts
@@ -39,7 +39,7 @@ const byObserver = (
 
         node.data = `${(bit = ++bit % 2)}`;
 
-        while (i < currentQueue.length) {
+        while (currentQueue && i < currentQueue.length) {
             callback = currentQueue[i];
             i++;
             if (i === currentQueue.length) currentQueue = null;
-- 
2.43.0


From 35192842b633bcd5d50f36448f33a00fcb95ca45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 141/150] fix: nextTick on an observer runs no callback again
 after one of them fails

---
 packages/function/src/timeout/nextTick.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/timeout/nextTick.ts b/packages/function/src/timeout/nextTick.ts
index de3f3ff..3d3b032 100644
--- a/packages/function/src/timeout/nextTick.ts
+++ b/packages/function/src/timeout/nextTick.ts
@@ -21,7 +21,7 @@ const byObserver = (
 
         if (!queue) {
             if (!currentQueue) return;
-            queue = currentQueue;
+            queue = currentQueue.slice(i);
         } else if (currentQueue) {
             queue = currentQueue.slice(i).concat(queue);
         }
-- 
2.43.0


From 91cd6b1838e8045b032cb71ebfc02cf4502c0dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:08 +0000
Subject: [PATCH 142/150] fix: parseCookie keeps a cookie named __proto__

---
 packages/cookie/src/cookie/parse.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/packages/cookie/src/cookie/parse.ts b/packages/cookie/src/cookie/parse.ts
index a3b1cf6..0557faa 100644
--- a/packages/cookie/src/cookie/parse.ts
+++ b/packages/cookie/src/cookie/parse.ts
@@ -67,7 +67,8 @@ export default function parseCookie(
     cookie: string,
     decode?: ParseCookieOptions['decode']
 ): { [key: string]: string } {
-    const result: { [key: string]: string } = {};
+    // 使用条目来收集，以免丢失名称为 `__proto__` 的 `cookie`
+    const entries: [string, string][] = [];
 
     if (!isStringFilled(cookie) || !cookie.includes('=')) {
         throw new TypeError(`[parse]: cookie不是一个字符串, "${cookie}"`);
@@ -98,14 +99,14 @@ export default function parseCookie(
 
         if (isString(key)) {
             if (isString(value)) {
-                result[key] = value;
+                entries.push([key, value]);
                 key = null;
                 value = null;
             } else if (i === len - 1) {
-                result[key] = getDecode(cookie.slice(star), decode);
+                entries.push([key, getDecode(cookie.slice(star), decode)]);
             }
         }
     }
 
-    return result;
+    return Object.fromEntries(entries);
 }
-- 
2.43.0


From a2a1c62738c39abfe18eed19b8adbacb1341002f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:37 +0000
Subject: [PATCH 143/150] fix: parseSetCookie keeps a cookie named __proto__ in
 a map

---
 packages/cookie/src/setCookie/parse.ts | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/packages/cookie/src/setCookie/parse.ts b/packages/cookie/src/setCookie/parse.ts
index 79c1a0e..51697d4 100644
--- a/packages/cookie/src/setCookie/parse.ts
+++ b/packages/cookie/src/setCookie/parse.ts
@@ -175,12 +175,10 @@ export default function parseSetCookie(
         return cookies.map((str: string) => parseChunk(str, decode));
     }
 
-    return cookies.reduce(
-        (cookie, str) => {
+    return Object.fromEntries(
+        cookies.map((str: string) => {
             const v = parseChunk(str, decode);
-            cookie[v.name] = v;
-            return cookie;
-        },
-        {} as Record<string, SetCookieItem>
+            return [v.name, v];
+        })
     );
 }
-- 
2.43.0


From 8c4b133ed5ff5748cf3b4cf2b4c1390968747618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:06 +0000
Subject: [PATCH 144/150] fix: parseSetCookie does not let an attribute replace
 the name or value of its cookie

---
 packages/cookie/src/setCookie/parse.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/cookie/src/setCookie/parse.ts b/packages/cookie/src/setCookie/parse.ts
index 51697d4..d12b155 100644
--- a/packages/cookie/src/setCookie/parse.ts
+++ b/packages/cookie/src/setCookie/parse.ts
@@ -37,6 +37,11 @@ const setCookieValue = (cookie: SetCookieItem, key: string, value: string) => {
             cookie.sameSite = value;
             break;
 
+        // 属性不能覆盖 `cookie` 的名称和值
+        case 'name':
+        case 'value':
+            break;
+
         default:
             cookie[key] = value;
             break;
-- 
2.43.0


From 5d8840e5073ec07ba7a3698b3ba0fed33313624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 145/150] fix: a plus sign in front of an amount is no digit

---
 packages/number/src/amount/amountInWords.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/number/src/amount/amountInWords.ts b/packages/number/src/amount/amountInWords.ts
index 3155388..4efdb3c 100644
--- a/packages/number/src/amount/amountInWords.ts
+++ b/packages/number/src/amount/amountInWords.ts
@@ -15,7 +15,7 @@ const isNilNumber = (value: number) => isZero(value) || isNaN(value);
 /** 转换整数部分 */
 const convertInteger = (amount: string): string => {
     const parts = amount.split('.');
-    const integer = parts[0].replace('-', '');
+    const integer = parts[0].replace(/^[+-]/, '');
     const integerNumbers = parseInt(integer)
         ? integer.replace(/^0+/, '').split('').reverse()
         : [];
-- 
2.43.0


From f2896bdd8bf0fc91f9a22707891c98094dcd9895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 146/150] fix: maxArgsLength returned a length that had just
 failed

---
 packages/util/src/maxArgsLength.ts | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/packages/util/src/maxArgsLength.ts b/packages/util/src/maxArgsLength.ts
index 9ccc2e5..8d2ff7e 100644
--- a/packages/util/src/maxArgsLength.ts
+++ b/packages/util/src/maxArgsLength.ts
@@ -25,13 +25,14 @@ export default function maxArgsLength(): number {
         count *= 2;
     }
 
-    for (let i = count-- / 2; i < count; ) {
-        result = (i + count + 1) / 2;
+    // 最后一次尝试有可能是失败的，因此只记录成功的长度
+    for (result = count-- / 2; result < count; ) {
+        const middle = (result + count + 1) / 2;
 
-        if (tryFn(result)) {
-            i = result;
+        if (tryFn(middle)) {
+            result = middle;
         } else {
-            count = result - 1;
+            count = middle - 1;
         }
     }
 
-- 
2.43.0


From 39947b56ce1e515bb6ee74524b0c4de5bfb64d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:00 +0000
Subject: [PATCH 147/150] fix: listing a directory with very many files below
 it ran out of stack

---
 packages/fs/src/fileList.ts | 5 +++--
 packages/fs/src/findDir.ts  | 7 +++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/packages/fs/src/fileList.ts b/packages/fs/src/fileList.ts
index 306f37c..93de347 100644
--- a/packages/fs/src/fileList.ts
+++ b/packages/fs/src/fileList.ts
@@ -58,7 +58,8 @@ export default async function fileList(
 
             if (extname(targetPath) === '') {
                 // 如果是文件夹
-                files.push(...(await fileList(targetPath)));
+                // 文件有可能非常多，不能将它们全部作为参数来传递
+                for (const file of await fileList(targetPath)) files.push(file);
             } else {
                 // 不是文件夹，那么就是文件了
                 files.push(targetPath);
@@ -69,7 +70,7 @@ export default async function fileList(
 
         // 是文件夹
         if (dirent.isDirectory()) {
-            files.push(...(await fileList(absolutePath)));
+            for (const file of await fileList(absolutePath)) files.push(file);
         } else {
             files.push(absolutePath);
         }
diff --git a/packages/fs/src/findDir.ts b/packages/fs/src/findDir.ts
index 594c62d..96010bb 100644
--- a/packages/fs/src/findDir.ts
+++ b/packages/fs/src/findDir.ts
@@ -42,7 +42,9 @@ async function findDirCall(
                 continue;
             }
 
-            files.push(...(await findDirCall(absolutePath, folders, data)));
+            // 文件有可能非常多，不能将它们全部作为参数来传递
+            const found = await findDirCall(absolutePath, folders, data);
+            for (const file of found) files.push(file);
 
             continue;
         }
@@ -54,7 +56,8 @@ async function findDirCall(
 
             if (extname(targetPath) === '') {
                 // 如果是文件夹
-                files.push(...(await findDirCall(targetPath, folders, data)));
+                const found = await findDirCall(targetPath, folders, data);
+                for (const file of found) files.push(file);
             } else {
                 // 不是文件夹，那么就是文件了
                 files.push(targetPath);
-- 
2.43.0


From 00e25f4551fcd812513f700c916fc5529ccf04b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:02 +0000
Subject: [PATCH 148/150] fix: the depth of a very long array ran out of stack

---
 packages/array/src/maxRecursionDepth.ts | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/packages/array/src/maxRecursionDepth.ts b/packages/array/src/maxRecursionDepth.ts
index d1a3fd9..0aadc47 100644
--- a/packages/array/src/maxRecursionDepth.ts
+++ b/packages/array/src/maxRecursionDepth.ts
@@ -45,8 +45,5 @@ export default function maxRecursionDepth<T extends any[]>(
         return 1;
     }
 
-    return Math.max.apply(
-        null,
-        value.reduce((m, v) => m.concat(maxRecursionDepth(v) + 1), [1])
-    );
+    return value.reduce((m, v) => Math.max(m, maxRecursionDepth(v) + 1), 1);
 }
-- 
2.43.0


From 3d54af8335a276f79ab7947ee834b304add4d387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 149/150] fix: a very deep tree ran out of stack when orphans
 are reported

---
 packages/array/src/convert/toTree.ts | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/packages/array/src/convert/toTree.ts b/packages/array/src/convert/toTree.ts
index 3267e55..f245633 100644
--- a/packages/array/src/convert/toTree.ts
+++ b/packages/array/src/convert/toTree.ts
@@ -3,18 +3,22 @@ import { hasOwnProperty } from '@curong/types';
 import type { Item, ToTreeOptions, TreeItem } from './types';
 
 /**
- * 递归返回树中的节点数量
+ * 返回树中的节点数量
  *
  * @param tree 树节点数组，每个节点都有一个字段`childrenField`，包含节点数组
  * @param childrenField 包含子节点数组的属性名称
  * @returns 树中的节点数量
  */
 export const countNodes = (tree: TreeItem[], childrenField: string): number => {
+    const levels = [tree];
     let count = 0;
 
-    for (let i = 0; i < tree.length; i++) {
-        count += 1; // 当前节点
-        count += countNodes(tree[i][childrenField] ?? [], childrenField); // 递归子节点
+    // 树的层级有可能非常深，因此不使用递归
+    for (let nodes = levels.pop(); nodes; nodes = levels.pop()) {
+        for (let i = 0; i < nodes.length; i++) {
+            count += 1; // 当前节点
+            levels.push(nodes[i][childrenField] ?? []); // 子节点
+        }
     }
 
     return count;
-- 
2.43.0


From 4d43d7b0f9266f268ef0951633e785ab7f58ad22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 150/150] fix: detecting Chinese ran out of stack on very long
 texts

---
 packages/regexp/src/inChinese.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/regexp/src/inChinese.ts b/packages/regexp/src/inChinese.ts
index e3e14f5..689ca64 100644
--- a/packages/regexp/src/inChinese.ts
+++ b/packages/regexp/src/inChinese.ts
@@ -14,9 +14,9 @@ import { hiragana, katakana, unifiedIdeograph } from './source';
  * ```
  */
 export default function inChinese(str: string, vhk: boolean = false): boolean {
-    if (vhk && new RegExp(`(${hiragana}|${katakana})+`).test(str)) {
+    if (vhk && new RegExp(`${hiragana}|${katakana}`).test(str)) {
         return false;
     }
 
-    return new RegExp(`(${unifiedIdeograph})+`).test(str);
+    return new RegExp(unifiedIdeograph).test(str);
 }
-- 
2.43.0

