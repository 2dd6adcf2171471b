B, L, CMD, I, F, D, S = "src/builder.rs", "src/lib.rs", "src/cm/cmd.rs", "src/builder/index.rs", "src/builder/features.rs", "src/cm/de.rs", "src/pkgspec.rs"
CASES = []


def c(n, p, *e):
    CASES.append(dict(n=n, p=p, e=list(e)))


one = """                if self.workspace_filters.len() == 1
                    && Some(md.workspace_root.as_ref()) == self.workspace_filters[0].parent()
                {"""
c("m-filter-any", "C07", (B, one, "                if self.workspace_filters.iter().any(|wf| Some(md.workspace_root.as_ref()) == wf.parent()) {"))
c("m-filter-all", "C07", (B, one, "                if self.workspace_filters.iter().all(|wf| Some(md.workspace_root.as_ref()) == wf.parent()) {"))
c("m-filter-one-any", None, (B, one, "                if self.workspace_filters.len() == 1\n                    && self.workspace_filters.iter().any(|wf| Some(md.workspace_root.as_ref()) == wf.parent())\n                {"))
c("m-filter-one-all", None, (B, one, "                if self.workspace_filters.len() == 1\n                    && self.workspace_filters.iter().all(|wf| Some(md.workspace_root.as_ref()) == wf.parent())\n                {"))
c("m-filter-slice", None, (B, one, "                if let [only] = self.workspace_filters.as_slice()\n                    && only.parent() == Some(md.workspace_root.as_ref())\n                {"))
c("m-filter-first", None, (B, one, "                if self.workspace_filters.len() == 1\n                    && self.workspace_filters.first().and_then(|f| f.parent()) == Some(md.workspace_root.as_ref())\n                {"))
c("m-filter-last", None, (B, one, "                if self.workspace_filters.len() == 1\n                    && self.workspace_filters.last().is_some_and(|f| f.parent() == Some(md.workspace_root.as_ref()))\n                {"))
ex = "        self.exclude.extend(exclude);\n"
c("m-exc-loop", None, (B, ex, "        for spec in exclude {\n            self.exclude.push(spec);\n        }\n"))
c("m-exc-collect", None, (B, ex, "        let mut specs: Vec<crate::PkgSpec> = exclude.into_iter().collect();\n        self.exclude.append(&mut specs);\n"))
c("m-exc-dedup", "C01", (B, ex, "        for spec in exclude {\n            if !self.exclude.iter().any(|e| e.name == spec.name) {\n                self.exclude.push(spec);\n            }\n        }\n"))
c("m-exc-ret", "C01", (B, ex, "        for spec in exclude {\n            if spec.version.is_some() || spec.url.is_none() {\n                self.exclude.push(spec);\n            }\n        }\n"))
c("m-exc-assign", "C01", (B, ex, "        self.exclude = exclude.into_iter().collect();\n"))
c("m-exc-first", "C01", (B, ex, "        if self.exclude.is_empty() {\n            self.exclude.extend(exclude);\n        }\n"))
c("m-exc-insert", None, (B, ex, "        self.exclude.splice(0..0, exclude);\n"))
c("m-exc-take", "C01", (B, ex, "        self.exclude.extend(exclude.into_iter().take(64));\n"))
c("m-exc-whole", None, (B, ex, "        for spec in exclude {\n            if !self.exclude.iter().any(|e| e.name == spec.name && e.version == spec.version && e.url == spec.url) {\n                self.exclude.push(spec);\n            }\n        }\n"))
