From 1df563dac07cda7a0b305c7296342442c7e4a115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:18 +0000
Subject: [PATCH 1/7] fix: do not modify the caller's emails when sending a
 batch

---
 src/batch/batch.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/batch/batch.ts b/src/batch/batch.ts
index 777f328..1422094 100644
--- a/src/batch/batch.ts
+++ b/src/batch/batch.ts
@@ -25,7 +25,9 @@ export class Batch {
   ): Promise<CreateBatchResponse<Options>> {
     const emails: EmailApiOptions[] = [];
 
-    for (const email of payload) {
+    for (const item of payload) {
+      const email = { ...item };
+
       if (email.react) {
         email.html = await render(email.react);
         email.react = undefined;
-- 
2.43.0


From 0bd9fa7e072adb9495e8ae4697e04361b74d554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:16 +0000
Subject: [PATCH 2/7] fix: send batch headers given as Headers or entries

---
 src/batch/batch.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/batch/batch.ts b/src/batch/batch.ts
index 1422094..37ea4a3 100644
--- a/src/batch/batch.ts
+++ b/src/batch/batch.ts
@@ -43,7 +43,7 @@ export class Batch {
         ...options,
         headers: {
           'x-batch-validation': options?.batchValidation ?? 'strict',
-          ...options?.headers,
+          ...Object.fromEntries(new Headers(options?.headers).entries()),
         },
       },
     );
-- 
2.43.0


From 95fcc513bcc6eb588dd1626a648d5e7e9eeac950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:28 +0000
Subject: [PATCH 3/7] fix: report a failed raw email download as an error when
 forwarding

---
 src/emails/receiving/receiving.ts | 35 ++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 684e1e4..88c162d 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -106,6 +106,21 @@ export class Receiving {
     );
   }
 
+  private async downloadRaw(
+    url: string,
+  ): Promise<{ content: string | null; status: number | null }> {
+    try {
+      const response = await fetch(url);
+
+      return {
+        content: response.ok ? await response.text() : null,
+        status: response.status,
+      };
+    } catch {
+      return { content: null, status: null };
+    }
+  }
+
   private async forwardPassthrough(
     email: GetReceivingEmailResponseSuccess,
     options: { to: string | string[]; from: string; subject: string },
@@ -125,22 +140,22 @@ export class Receiving {
       };
     }
 
-    const rawResponse = await fetch(email.raw.download_url);
+    const { content: rawEmailContent, status } = await this.downloadRaw(
+      email.raw.download_url,
+    );
 
-    if (!rawResponse.ok) {
+    if (rawEmailContent === null) {
       return {
         data: null,
         error: {
           name: 'application_error',
           message: 'Failed to download raw email content',
-          statusCode: rawResponse.status,
+          statusCode: status,
         },
         headers: null,
       };
     }
 
-    const rawEmailContent = await rawResponse.text();
-
     const parsed = await PostalMime.parse(rawEmailContent, {
       attachmentEncoding: 'base64',
     });
@@ -199,22 +214,22 @@ export class Receiving {
       };
     }
 
-    const rawResponse = await fetch(email.raw.download_url);
+    const { content: rawEmailContent, status } = await this.downloadRaw(
+      email.raw.download_url,
+    );
 
-    if (!rawResponse.ok) {
+    if (rawEmailContent === null) {
       return {
         data: null,
         error: {
           name: 'application_error',
           message: 'Failed to download raw email content',
-          statusCode: rawResponse.status,
+          statusCode: status,
         },
         headers: null,
       };
     }
 
-    const rawEmailContent = await rawResponse.text();
-
     const data = await this.resend.post<ForwardReceivingEmailResponseSuccess>(
       '/emails',
       {
-- 
2.43.0


From e0cc221d3223bbaa91f5c599d0f14bebb3a28f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 4/7] fix: forward the raw email bytes instead of lossily
 decoded text

---
 src/emails/receiving/receiving.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 88c162d..c93ab1c 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -108,12 +108,12 @@ export class Receiving {
 
   private async downloadRaw(
     url: string,
-  ): Promise<{ content: string | null; status: number | null }> {
+  ): Promise<{ content: ArrayBuffer | null; status: number | null }> {
     try {
       const response = await fetch(url);
 
       return {
-        content: response.ok ? await response.text() : null,
+        content: response.ok ? await response.arrayBuffer() : null,
         status: response.status,
       };
     } catch {
-- 
2.43.0


From 046f9ab68bd86412668d7137a35689cba08beacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 5/7] fix: report an application_error when an HTTP error body
 is not a JSON object

---
 src/resend.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/resend.ts b/src/resend.ts
index fe4f5e0..93a67e0 100644
--- a/src/resend.ts
+++ b/src/resend.ts
@@ -120,6 +120,14 @@ export class Resend {
           const rawError = await response.text();
           const parsedError = JSON.parse(rawError);
 
+          if (
+            typeof parsedError !== 'object' ||
+            parsedError === null ||
+            Array.isArray(parsedError)
+          ) {
+            throw new SyntaxError('The error response is not a JSON object');
+          }
+
           this.logError(parsedError, path, response.status);
 
           return {
-- 
2.43.0


From cef1bfa3dbf89f7099d90beff6820051fef8317a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 6/7] fix: keep the response headers when a chained template
 publish fails

---
 src/templates/chainable-template-result.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/templates/chainable-template-result.ts b/src/templates/chainable-template-result.ts
index 343e003..51213e1 100644
--- a/src/templates/chainable-template-result.ts
+++ b/src/templates/chainable-template-result.ts
@@ -25,12 +25,12 @@ export class ChainableTemplateResult<
   }
 
   async publish(): Promise<PublishTemplateResponse> {
-    const { data, error } = await this.promise;
+    const { data, error, headers } = await this.promise;
 
     if (error) {
       return {
         data: null,
-        headers: null,
+        headers,
         error,
       };
     }
-- 
2.43.0


From 1c43ec64c7e5b4f20079f49af9c6db3d670edf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 7/7] fix: reject an empty contact identifier instead of
 addressing every contact

---
 src/contacts/contacts.ts | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/contacts/contacts.ts b/src/contacts/contacts.ts
index 8882444..1d8b952 100644
--- a/src/contacts/contacts.ts
+++ b/src/contacts/contacts.ts
@@ -115,11 +115,10 @@ export class Contacts {
   }
 
   async get(options: GetContactOptions): Promise<GetContactResponse> {
-    if (typeof options === 'string') {
-      return this.resend.get<GetContactResponseSuccess>(`/contacts/${options}`);
-    }
-
-    if (!options.id && !options.email) {
+    if (
+      !options ||
+      (typeof options !== 'string' && !options.id && !options.email)
+    ) {
       return {
         data: null,
         headers: null,
@@ -131,6 +130,10 @@ export class Contacts {
       };
     }
 
+    if (typeof options === 'string') {
+      return this.resend.get<GetContactResponseSuccess>(`/contacts/${options}`);
+    }
+
     if (!options.audienceId) {
       return this.resend.get<GetContactResponseSuccess>(
         `/contacts/${options?.email ? options?.email : options?.id}`,
@@ -181,13 +184,10 @@ export class Contacts {
   }
 
   async remove(payload: RemoveContactOptions): Promise<RemoveContactsResponse> {
-    if (typeof payload === 'string') {
-      return this.resend.delete<RemoveContactsResponseSuccess>(
-        `/contacts/${payload}`,
-      );
-    }
-
-    if (!payload.id && !payload.email) {
+    if (
+      !payload ||
+      (typeof payload !== 'string' && !payload.id && !payload.email)
+    ) {
       return {
         data: null,
         headers: null,
@@ -199,6 +199,12 @@ export class Contacts {
       };
     }
 
+    if (typeof payload === 'string') {
+      return this.resend.delete<RemoveContactsResponseSuccess>(
+        `/contacts/${payload}`,
+      );
+    }
+
     if (!payload.audienceId) {
       return this.resend.delete<RemoveContactsResponseSuccess>(
         `/contacts/${payload?.email ? payload?.email : payload?.id}`,
-- 
2.43.0

