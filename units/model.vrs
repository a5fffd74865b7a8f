// ---- workflow, job, step and their results ----
//@file wf crates/astro-run/src/workflow/mod.rs
//@file job crates/astro-run/src/workflow/job.rs
//@file stp crates/astro-run/src/workflow/step.rs
//@file res crates/astro-run/src/types/results.rs
//@file wst crates/astro-run/src/types/workflow_state.rs
//@file wse crates/astro-run/src/types/workflow_state_event.rs
//@file trg crates/astro-run/src/types/trigger_event.rs
//@type id WorkflowId
//@type id JobId
//@type id StepId
//@type stp Step
//@type job Job
//@type wf Workflow
//@type wst WorkflowState
//@type wse WorkflowStateEvent
//@type res StepRunResult
//@type res JobRunResult
//@type res WorkflowRunResult
